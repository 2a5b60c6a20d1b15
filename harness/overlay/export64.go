package loc2index64

// Seen only by the verification harness (build overlay).
var (
	VClosestFace = closestFaceCalculations
	VCalculateR  = calculateR
	VHex2d       = calculateHex2d
	VCoordIJK    = hex2dToCoordIJK
)
