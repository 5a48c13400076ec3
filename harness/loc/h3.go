package loc

/*
#include <stdint.h>
typedef struct { double lat, lng; } LL;
typedef struct { double x, y; } V2;
typedef struct { int i, j, k; } IJK;
typedef struct { int face; IJK coord; } FIJK;
// The H3 library that the code under check links, as a reference.
extern void _geoToFaceIjk(const LL *g, int res, FIJK *h) __attribute__((weak));
extern void _hex2dToCoordIJK(const V2 *v, IJK *h) __attribute__((weak));
extern void _ijkNormalize(IJK *c) __attribute__((weak));
static int have(void) { return _geoToFaceIjk && _hex2dToCoordIJK && _ijkNormalize; }
static FIJK geo(double lat, double lng, int res) { LL g = {lat, lng}; FIJK h; _geoToFaceIjk(&g, res, &h); return h; }
static IJK hex(double x, double y) { V2 v = {x, y}; IJK h; _hex2dToCoordIJK(&v, &h); return h; }
static IJK norm(int i, int j, int k) { IJK h = {i, j, k}; _ijkNormalize(&h); return h; }
*/
import "C"

import _ "github.com/uber/h3-go/v4"

type IJK [3]int64

func haveH3() bool { return C.have() != 0 }

func h3Cell(lat, lng float64, res int) (int, IJK) {
	h := C.geo(C.double(lat), C.double(lng), C.int(res))
	return int(h.face), IJK{int64(h.coord.i), int64(h.coord.j), int64(h.coord.k)}
}

func h3Hex(x, y float64) IJK {
	h := C.hex(C.double(x), C.double(y))
	return IJK{int64(h.i), int64(h.j), int64(h.k)}
}

func h3Norm(i, j, k int64) IJK {
	h := C.norm(C.int(i), C.int(j), C.int(k))
	return IJK{int64(h.i), int64(h.j), int64(h.k)}
}
