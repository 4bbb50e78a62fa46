/* C string/ctype functions in bitcode (documented "C" locale behaviour). */
typedef __SIZE_TYPE__ size_t;
__attribute__((used)) size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
__attribute__((used)) int memcmp(const void* a, const void* b, size_t n) { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
__attribute__((used)) int bcmp(const void* a, const void* b, size_t n) { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return 1; return 0; }
__attribute__((used)) int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
__attribute__((used)) int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
__attribute__((used)) void* memchr(const void* s, int c, size_t n) { unsigned char* p = (unsigned char*)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return p + i; return 0; }
__attribute__((used)) char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
__attribute__((used)) char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
__attribute__((used)) int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
__attribute__((used)) int isdigit(int c) { return c >= '0' && c <= '9'; }
__attribute__((used)) int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
__attribute__((used)) int isalnum(int c) { return isalpha(c) || isdigit(c); }
__attribute__((used)) int isupper(int c) { return c >= 'A' && c <= 'Z'; }
__attribute__((used)) int islower(int c) { return c >= 'a' && c <= 'z'; }
__attribute__((used)) int tolower(int c) { return isupper(c) ? c + 32 : c; }
__attribute__((used)) int toupper(int c) { return islower(c) ? c - 32 : c; }
__attribute__((used)) int abs(int x) { return x < 0 ? -x : x; }
__attribute__((used)) int* wmemchr(const int* s, int c, size_t n) { for (size_t i = 0; i < n; i++) if (s[i] == c) return (int*)s + i; return 0; }
