// C library routines in bitcode form (trusted models).
typedef unsigned long size_t;
size_t strlen(const char *s) { size_t n = 0; while(s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while(*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for(; n; n--, a++, b++) { if(*a != *b) return (unsigned char)*a - (unsigned char)*b; if(!*a) return 0; } return 0; }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = (const unsigned char *)p; for(size_t i = 0; i < n; i++) if(s[i] == (unsigned char)c) return (void *)(s + i); return 0; }
char *strchr(const char *s, int c) { for(;; s++) { if(*s == (char)c) return (char *)s; if(!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for(;; s++) { if(*s == (char)c) r = s; if(!*s) return (char *)r; } }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for(; i < n && s[i]; i++) d[i] = s[i]; for(; i < n; i++) d[i] = 0; return d; }
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while(s[i++]); return d; }
int tolower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int toupper(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
long strtol(const char *s, char **end, int base)
{
	const char *p = s; while(isspace((unsigned char)*p)) p++;
	int neg = 0; if(*p == '-') { neg = 1; p++; } else if(*p == '+') p++;
	if(base == 0) { if(*p == '0' && (p[1] == 'x' || p[1] == 'X')) { base = 16; p += 2; } else base = *p == '0' ? 8 : 10; }
	unsigned long v = 0; int any = 0, over = 0;
	for(;; p++)
	{
		int c = (unsigned char)*p, d;
		if(c >= '0' && c <= '9') d = c - '0'; else if(c >= 'a' && c <= 'z') d = c - 'a' + 10; else if(c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
		if(d >= base) break;
		if(v > 0x7fffffffffffffffUL / base || (v == 0x7fffffffffffffffUL / base && d > 0x7fffffffffffffffUL % base)) over = 1; else v = v * base + d;
		any = 1;
	}
	if(end) *end = (char *)(any ? p : s);
	if(over) return neg ? (long)0x8000000000000000UL : 0x7fffffffffffffffL;
	return neg ? -(long)v : (long)v;
}
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
long __isoc23_strtol(const char *s, char **end, int base) { return strtol(s, end, base); }
