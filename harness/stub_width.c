/* uninterpreted display width: any fixed function of the code point to -1..2 */
#include "vp.h"
#include <wchar.h>
int wcwidth(wchar_t c)
{
	unsigned int h = (unsigned int)c;

	return (int)((h ^ (h >> 5)) & 3) - 1;
}
