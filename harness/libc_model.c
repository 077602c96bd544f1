/* plain C models of the libc functions the code under test calls */
#include <stddef.h>

void *malloc(size_t n);

size_t strlen(const char *s)
{
	size_t n = 0;

	while (s[n])
		++n;
	return n;
}

int strcmp(const char *a, const char *b)
{
	size_t i = 0;

	while (a[i] && a[i] == b[i])
		++i;
	return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}

int strncmp(const char *a, const char *b, size_t n)
{
	size_t i;

	for (i = 0; i < n; ++i)
		if (!a[i] || a[i] != b[i])
			return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
	return 0;
}

int memcmp(const void *x, const void *y, size_t n)
{
	const unsigned char *a = x, *b = y;
	int r = 0;
	size_t i;

	for (i = n; i-- > 0; ) {
		int d = (int)a[i] - (int)b[i];
		r = d ? d : r;
	}
	return r;
}

int bcmp(const void *x, const void *y, size_t n)
{
	return memcmp(x, y, n);
}

char *strcpy(char *d, const char *s)
{
	size_t i = 0;

	do
		d[i] = s[i];
	while (s[i++]);
	return d;
}

size_t strnlen(const char *s, size_t n)
{
	size_t i = 0;

	while (i < n && s[i])
		++i;
	return i;
}

char *strncpy(char *d, const char *s, size_t n)
{
	size_t i;

	for (i = 0; i < n && s[i]; ++i)
		d[i] = s[i];
	for (; i < n; ++i)
		d[i] = 0;
	return d;
}

char *stpcpy(char *d, const char *s)
{
	strcpy(d, s);
	return d + strlen(s);
}

char *strcat(char *d, const char *s)
{
	strcpy(d + strlen(d), s);
	return d;
}

char *strncat(char *d, const char *s, size_t n)
{
	size_t k = strlen(d), i;

	for (i = 0; i < n && s[i]; ++i)
		d[k + i] = s[i];
	d[k + i] = 0;
	return d;
}

void *memchr(const void *p, int c, size_t n)
{
	const unsigned char *s = p;
	size_t i;

	for (i = 0; i < n; ++i)
		if (s[i] == (unsigned char)c)
			return (void *)(s + i);
	return NULL;
}

void *memrchr(const void *p, int c, size_t n)
{
	const unsigned char *s = p;

	while (n-- > 0)
		if (s[n] == (unsigned char)c)
			return (void *)(s + n);
	return NULL;
}

void *rawmemchr(const void *p, int c)
{
	const unsigned char *s = p;

	while (*s != (unsigned char)c)
		++s;
	return (void *)s;
}

char *strchrnul(const char *s, int c)
{
	while (*s && *s != (char)c)
		++s;
	return (char *)s;
}

char *strchr(const char *s, int c)
{
	char *r = strchrnul(s, c);

	return *r == (char)c ? r : NULL;
}

char *strrchr(const char *s, int c)
{
	return memrchr(s, c, strlen(s) + 1);
}

char *strstr(const char *s, const char *t)
{
	size_t n = strlen(t);

	for (;; ++s) {
		if (!strncmp(s, t, n))
			return (char *)s;
		if (!*s)
			return NULL;
	}
}

static int low(int c)
{
	return c >= 'A' && c <= 'Z' ? c + 32 : c;
}

int tolower(int c)
{
	return low(c);
}

int toupper(int c)
{
	return c >= 'a' && c <= 'z' ? c - 32 : c;
}

int strncasecmp(const char *a, const char *b, size_t n)
{
	size_t i;

	for (i = 0; i < n; ++i)
		if (!a[i] || low((unsigned char)a[i]) != low((unsigned char)b[i]))
			return low((unsigned char)a[i]) - low((unsigned char)b[i]);
	return 0;
}

int strcasecmp(const char *a, const char *b)
{
	return strncasecmp(a, b, (size_t)-1);
}

/* the C locale */
const unsigned short **__ctype_b_loc(void)
{
	static unsigned short t[384];
	static const unsigned short *p;
	int c;

	if (!p) {
		p = t + 128;
		for (c = 0; c < 128; ++c) {
			int up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', di = c >= '0' && c <= '9';
			int xd = di || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f');
			int sp = c == ' ' || (c >= 9 && c <= 13), pr = c >= 32 && c < 127;

			t[128 + c] = up << 8 | lo << 9 | (up | lo) << 10 | di << 11 | xd << 12 | sp << 13 | pr << 14 |
				     (pr && c != ' ') << 15 | (c == ' ' || c == 9) << 0 | !pr << 1 |
				     (pr && c != ' ' && !up && !lo && !di) << 2 | (up | lo | di) << 3;
		}
	}
	return &p;
}

int abs(int x)
{
	return x < 0 ? -x : x;
}

long labs(long x)
{
	return x < 0 ? -x : x;
}

void *realloc(void *p, size_t n);

void *reallocarray(void *p, size_t a, size_t b)
{
	size_t n;

	return __builtin_mul_overflow(a, b, &n) ? NULL : realloc(p, n);
}

char *strndup(const char *s, size_t m)
{
	size_t n = strnlen(s, m), i;
	char *r = malloc(n + 1);

	if (r) {
		for (i = 0; i < n; ++i)
			r[i] = s[i];
		r[n] = 0;
	}
	return r;
}

char *strdup(const char *s)
{
	size_t n = strlen(s), i;
	char *r = malloc(n + 1);

	if (r)
		for (i = 0; i <= n; ++i)
			r[i] = s[i];
	return r;
}

size_t strspn(const char *s, const char *set)
{
	size_t n = 0, i;

	for (; s[n]; ++n) {
		for (i = 0; set[i] && set[i] != s[n]; ++i)
			;
		if (!set[i])
			break;
	}
	return n;
}

size_t strcspn(const char *s, const char *set)
{
	size_t n = 0, i;

	for (; s[n]; ++n) {
		for (i = 0; set[i] && set[i] != s[n]; ++i)
			;
		if (set[i])
			break;
	}
	return n;
}

char *strpbrk(const char *s, const char *set)
{
	s += strcspn(s, set);
	return *s ? (char *)s : NULL;
}

static unsigned long number(const char *s, char **end, int base, int *neg)
{
	const char *p = s, *digits;
	unsigned long v = 0;

	*neg = 0;
	while (*p == ' ' || (*p >= 9 && *p <= 13))
		++p;
	if (*p == '-' || *p == '+')
		*neg = *p++ == '-';
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) {
		p += 2;
		base = 16;
	}
	if (!base)
		base = *p == '0' ? 8 : 10;
	for (digits = p; ; ++p) {
		int d = *p >= '0' && *p <= '9' ? *p - '0' : (*p | 32) >= 'a' && (*p | 32) <= 'z' ? (*p | 32) - 'a' + 10 : 99;

		if (d >= base)
			break;
		v = v * base + d;
	}
	if (end)
		*end = (char *)(p == digits ? s : p);
	return v;
}

/* values within range only */
unsigned long strtoul(const char *s, char **end, int base)
{
	int neg;
	unsigned long v = number(s, end, base, &neg);

	return neg ? -v : v;
}

long strtol(const char *s, char **end, int base)
{
	return (long)strtoul(s, end, base);
}

int atoi(const char *s)
{
	return (int)strtol(s, NULL, 10);
}

void *bsearch(const void *key, const void *base, size_t n, size_t size, int (*cmp)(const void *, const void *))
{
	size_t l = 0, h = n, m;
	const char *p;
	int r;

	while (l < h) {
		m = (l + h) / 2;
		p = (const char *)base + m * size;
		r = cmp(key, p);
		if (r < 0)
			h = m;
		else if (r > 0)
			l = m + 1;
		else
			return (void *)p;
	}
	return NULL;
}

void qsort(void *base, size_t n, size_t size, int (*cmp)(const void *, const void *))
{
	char *b = base, t;
	size_t i, j, k;

	for (i = 1; i < n; ++i) {
		for (j = i; j > 0 && cmp(b + (j - 1) * size, b + j * size) > 0; --j) {
			for (k = 0; k < size; ++k) {
				t = b[(j - 1) * size + k];
				b[(j - 1) * size + k] = b[j * size + k];
				b[j * size + k] = t;
			}
		}
	}
}

/* %c %d %u %i %x %s with unpadded values, as much as the library uses */
#include <stdarg.h>

int vsnprintf(char *b, size_t n, const char *f, va_list ap)
{
	size_t k = 0;
	const char *s;
	unsigned int u, i;
	static const unsigned int pow10[10] = { 1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000 };
	int neg, lng;

#define PUT(c) do { if (k + 1 < n) b[k] = (c); ++k; } while (0)
	for (; *f; ++f) {
		if (*f != '%') {
			PUT(*f);
			continue;
		}
		++f;
		lng = *f == 'l' || *f == 'z' || *f == 'j' || *f == 't';
		while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't')
			++f;
		switch (*f) {
		case 'p':
			(void)va_arg(ap, void *);
			PUT('0');
			PUT('x');
			PUT('1');
			break;
		case 'c':
			PUT((char)va_arg(ap, int));
			break;
		case 's':
			for (s = va_arg(ap, const char *); *s; ++s)
				PUT(*s);
			break;
		case 'd':
		case 'i':
		case 'u':
			/* values of int size only */
			u = lng ? (unsigned int)va_arg(ap, unsigned long) : va_arg(ap, unsigned int);
			neg = *f != 'u' && (int)u < 0;
			if (neg) {
				PUT('-');
				u = -u;
			}
			/* comparisons with constants rather than a chain of divisions */
			for (i = 9; i > 0 && u < pow10[i]; --i)
				;
			do
				PUT('0' + u / pow10[i] % 10);
			while (i-- > 0);
			break;
		case 'x':
			u = lng ? (unsigned int)va_arg(ap, unsigned long) : va_arg(ap, unsigned int);
			for (i = 28; i > 0 && !(u >> i); i -= 4)
				;
			for (; ; i -= 4) {
				PUT("0123456789abcdef"[u >> i & 15]);
				if (!i)
					break;
			}
			break;
		case '%':
			PUT('%');
			break;
		default:
			__builtin_trap();
		}
	}
	if (n)
		b[k < n ? k : n - 1] = 0;
	return k;
}

int snprintf(char *b, size_t n, const char *f, ...)
{
	va_list ap;
	int r;

	va_start(ap, f);
	r = vsnprintf(b, n, f, ap);
	va_end(ap);
	return r;
}
