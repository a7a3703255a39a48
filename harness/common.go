package dxsvalue

// Harness vocabulary. The symbolic executor intercepts every vx* function; the
// bodies below are what the native replay build runs, fed with the solver's values.

type vxState struct {
	vals  []uint64
	pos   int
	obs   []string
	under bool
	dirs  []string
}

type vxStop struct {
	kind, label string
}

var vxCur *vxState
var vxTierN int

func vxNext() uint64 {
	if vxCur.pos >= len(vxCur.vals) {
		vxCur.under = true
		return 0
	}
	v := vxCur.vals[vxCur.pos]
	vxCur.pos++
	return v
}

func vxByte() byte  { return byte(vxNext()) }
func vxU16() uint16 { return uint16(vxNext()) }
func vxU32() uint32 { return uint32(vxNext()) }
func vxU64() uint64 { return vxNext() }
func vxI64() int64  { return int64(vxNext()) }
func vxI32() int32  { return int32(vxNext()) }
func vxBool() bool  { return vxNext() != 0 }
func vxF64() float64 {
	return vxF64frombits(vxNext())
}
func vxF32() float32 {
	return vxF32frombits(uint32(vxNext()))
}
func vxBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vxNext())
	}
	return b
}

// vxChoose picks 0..n-1.
func vxChoose(n int) int {
	v := int(vxNext())
	if v >= n {
		panic(vxStop{"assume", "choose"})
	}
	return v
}

func vxAssume(c bool) {
	if !c {
		panic(vxStop{"assume", ""})
	}
}

func vxAssert(c bool, label string) {
	if !c {
		panic(vxStop{"assert", label})
	}
}

// vxReach marks a vacuity witness.
func vxReach(label string) {}

func vxObs(label string, v uint64) { vxCur.obs = append(vxCur.obs, label+"="+vxUtoa(v)) }

func vxObsStr(label string, s string) {
	const hx = "0123456789abcdef"
	b := make([]byte, 0, len(s)*2)
	for i := 0; i < len(s); i++ {
		b = append(b, hx[s[i]>>4], hx[s[i]&15])
	}
	vxCur.obs = append(vxCur.obs, label+"="+string(b))
}

func vxUtoa(v uint64) string {
	if v == 0 {
		return "0"
	}
	var b [20]byte
	i := len(b)
	for v > 0 {
		i--
		b[i] = byte('0' + v%10)
		v /= 10
	}
	return string(b[i:])
}

// vxEq compares byte sequences without forking per byte.
func vxEq(a, b string) bool { return a == b }

// vxAnd / vxOr combine conditions without forking.
func vxAnd(a, b bool) bool { return a && b }
func vxOr(a, b bool) bool  { return a || b }

// vxIn reports whether b is one of set.
func vxIn(b byte, set string) bool {
	for i := 0; i < len(set); i++ {
		if set[i] == b {
			return true
		}
	}
	return false
}

// vxRange reports lo <= b <= hi.
func vxRange(b, lo, hi byte) bool { return lo <= b && b <= hi }

// vxTier is 0 for the quick tier, 1 for the thorough tier.
func vxTier() int { return vxTierN }
