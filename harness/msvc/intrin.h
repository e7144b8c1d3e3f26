/* The two intrinsics of MSVC that the library uses, for the "msvc" builds. */
#ifndef VH_INTRIN_H
#define VH_INTRIN_H
static __inline unsigned char _BitScanReverse(unsigned long* index, unsigned long mask)
{
	unsigned m = (unsigned)mask;
	unsigned i;
	if (!m)
		return 0;
	for (i = 31; !(m >> i & 1); --i)
		;
	*index = i;
	return 1;
}

static __inline unsigned char _BitScanForward(unsigned long* index, unsigned long mask)
{
	unsigned m = (unsigned)mask;
	unsigned i;
	if (!m)
		return 0;
	for (i = 0; !(m >> i & 1); ++i)
		;
	*index = i;
	return 1;
}

#ifdef _WIN64
static __inline unsigned char _BitScanReverse64(unsigned long* index, unsigned long long mask)
{
	if (mask >> 32) {
		_BitScanReverse(index, (unsigned long)(mask >> 32));
		*index += 32;
		return 1;
	}
	return _BitScanReverse(index, (unsigned long)(mask & 0xffffffffu));
}

static __inline unsigned char _BitScanForward64(unsigned long* index, unsigned long long mask)
{
	if (mask & 0xffffffffu)
		return _BitScanForward(index, (unsigned long)(mask & 0xffffffffu));
	if (!_BitScanForward(index, (unsigned long)(mask >> 32)))
		return 0;
	*index += 32;
	return 1;
}
#endif
#endif
