import json,glob
p='DESIGN.md'; s=open(p).read()
s=s.replace("run against all 38 checks; see the end.","run against all checks (tools/bugcatch.sh also takes a diff); see the end.")
i=s.index("## Defects found and repaired")
if "## Known limits" in s: i=s.index("## Known limits")
rows=[]
for f in sorted(glob.glob('seeded/*/meta.json'), key=lambda f: json.load(open(f))['property']):
    m=json.load(open(f)); rows.append("| %s | %s | %s |"%(m['property'],f.split('/')[1],m['what_it_breaks'].replace('\n',' ').split('. ')[0][:170]))
tail="""## Known limits
* `scripts/evaluate_runtime_ZKLP.py` needs pandas, which is not installed: not covered.
* `scripts/ulp.py` is a scratch calculator with hard-coded inputs (it halves its answer: divides by
  2 ULP); it has no caller and makes no promise, so no property.
* `Context.ValueOf` panics on components that are no float; how exactly malformed *component
  lists* are refused is not stated as a property (they are built by the library only).
* The circuits of loc64/loc32 live in `_test.go` files, which may not be changed: their missing
  lower bounds of latitude and longitude (L05) and the untied half-angle hint (L04) are findings.
* QueryPowerOf2 on fractional field elements (see S06).

## Defects found and repaired
See known-findings.txt (fixed: lines), each one a `fix:` commit in /repo. Reverting each fix alone
makes the check named in its line (and often further ones) report a VIOLATION: done for all of them.

## False alarms met while building, and what was done
* B02 demanded that a proof with an altered resolution never verifies; two resolutions can have the
  same indices. Now required only where the reference says they differ.
* S06 demanded that a fractional power query fails; the gadget is specified for integers only.
* U06 judged coefficients after printing, whose rounding moves the error of high degree fits by
  more than the tolerance. Coefficients are now taken before printing.
* A change to an unexported function of the proximity program can break the build of the overlay,
  which is not a verdict about the program; U02 uses the plain program only.

## Planted bugs
NROWS changes in seeded/, each confirmed by tools/bugtest.sh (compiles, all stable tests pass, demo 0 on
the tree and non-zero with it). Every one is reported by the check of its own property:

| check | change | what it breaks |
|---|---|---|
TABLE

About 110 further changes, written from the statements in three batches and not kept, were run against
the checks of their property. The last batch (39 changes) was missed where: infinite operands
of Atan2 were not drawn (M02), no format had an odd power table (B03), all outputs of one
hint lie together (S08: "consistent lies" above), a coordinate of the direction is exactly 0 (L01);
each of these is generated now and the changes are reported. The rest of what stayed quiet changes
nothing observable (a bound another check implies, a branch that cannot be taken, an error
within the stated tolerance) or is reported by the check of a neighbouring property. Automatic mutation of the library's statements (negated conditions, dropped calls, off by one,
swapped operands; 34 that survive the repository's tests so far): five survived the checks, of which
three were dropped error marks in the benchmark helpers (U01 now demands them), one is a
width bound that changes no choice, and one weakens the sanity panic mentioned above.

## Behaviour-preserving refactorings
Seven diffs (float, gadget, hint, math, loc, util, proximity) against all checks: quiet.
""".replace("NROWS",str(len(rows))).replace("TABLE","\n".join(rows))
s=s[:i]+tail
if "**U06**" not in s:
  s=s.replace("""**U05** compares every entry of
  every table with the others and with H3.""","""**U05** compares every entry of
  every table with the others and with H3.
* **U06**: the Remez script is loaded as a module and run on functions, intervals and degrees; the
  coefficients are recorded before they are printed (its `float` is replaced by a recorder), the
  oracle is equioscillation in 60-digit arithmetic: the error must have n+2 alternating extremes of
  the size it reports, and no larger one anywhere. **U07**: the LaTeX generator is run on made-up
  logs (every single test failing, all passing, missing) and the table's colours compared with them.""")
if "repeated on the same operands" not in s:
  s=s.replace("""  field elements that encode nothing, with every split.
""","""  field elements that encode nothing, with every split. Operations are also attacked when
  repeated on the same operands, chained (the output of one feeds the next), with one
  operand a constant or freshly allocated, since shortcuts taken there leave hints unchecked.
""",1)
open(p,'w').write(s)
