package loc2index64

// Added by the build overlay of the checker: reaches what the package's own
// tests reach.

import (
	"github.com/consensys/gnark/frontend"
	float "github.com/tumberger/zk-Location/float"
)

func ZZCircuit64(lat, lng, res, i, j, k frontend.Variable) frontend.Circuit {
	return &loc2Index64Circuit{Lat: lat, Lng: lng, Resolution: res, I: i, J: j, K: k}
}

func ZZClosest(f *float.Context, x, y, z, lng float.FloatVar) [9]float.FloatVar {
	return closestFaceCalculations(f, x, y, z, lng)
}

func ZZR(f *float.Context, sqd float.FloatVar, res frontend.Variable) float.FloatVar {
	return calculateR(f, sqd, res)
}

func ZZHex2d(f *float.Context, z, cosLat, sinLng, cosLng float.FloatVar, c [9]float.FloatVar, r float.FloatVar, res frontend.Variable) [2]float.FloatVar {
	return calculateHex2d(f, z, cosLat, sinLng, cosLng, c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], r, res)
}

func ZZIJK(f *float.Context, x, y float.FloatVar) [3]frontend.Variable {
	return hex2dToCoordIJK(f, x, y)
}
