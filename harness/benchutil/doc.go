// Package util is the repository's util package as it stands, built
// through an overlay (see build.sh) with its proof systems' calls recorded.
package util
