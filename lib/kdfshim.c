/* Stand-ins for the two absent submodules (libscrypt, crypt_blowfish).  By default a fast keyed hash with the same
   interface and dependence on every argument; with kdf_real_flag set, the real functions of OpenSSL / libxcrypt. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include <crypt.h>
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
extern int kdf_real_flag;
int kdf_shim_inside;      /* OpenSSL calls made here are not the library's */
static const char A64[] = "./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
int libscrypt_scrypt(const uint8_t *pw, size_t pwl, const uint8_t *salt, size_t sl, uint64_t N, uint32_t r, uint32_t p, uint8_t *buf, size_t bl)
{
    if (kdf_real_flag) return EVP_PBE_scrypt((const char *)pw, pwl, salt, sl, N, r, p, 1ull << 31, buf, bl) == 1 ? 0 : -1;
    unsigned char m[512]; size_t n = 0, off = 0; unsigned k = 0;
    if (sl > 256) return -1;
    memcpy(m, salt, sl); n = sl;
    n += (size_t)snprintf((char *)m + n, 200, "|%llu|%u|%u|", (unsigned long long)N, r, p);
    while (off < bl) {
        unsigned char md[64]; unsigned int ml = 64; m[n] = (unsigned char)k++;
        kdf_shim_inside = 1; HMAC(EVP_sha512(), pwl ? (const void *)pw : (const void *)"", (int)pwl, m, n + 1, md, &ml); kdf_shim_inside = 0;
        for (unsigned i = 0; i < ml && off < bl; i++) buf[off++] = md[i];
    }
    return 0;
}
char *crypt_rn(const char *key, const char *setting, void *data, int size)
{
    if (kdf_real_flag) { /* libxcrypt needs a struct crypt_data as work area, crypt_blowfish does not */
        struct crypt_data cd; memset(&cd, 0, sizeof cd); char *r = crypt_r(key, setting, &cd);
        if (!r || r[0] == '*' || (int)strlen(r) >= size) return NULL;
        strcpy((char *)data, r); return (char *)data;
    }
    if (strncmp(setting, "$2y$15$", 7) || strlen(setting) < 29 || size < 61) return NULL;
    unsigned char md[64]; unsigned int ml = 64; kdf_shim_inside = 1; HMAC(EVP_sha512(), key, (int)strlen(key), (const unsigned char *)setting, 29, md, &ml); kdf_shim_inside = 0;
    char *o = (char *)data; memcpy(o, setting, 29); for (int i = 0; i < 31; i++) o[29 + i] = A64[md[i] & 63];
    o[60] = 0; return o;
}
char *crypt_gensalt_rn(const char *prefix, unsigned long count, const char *input, int size, char *output, int output_size)
{
    if (strcmp(prefix, "$2y$") || size < 16 || output_size < 30) return NULL;
    snprintf(output, 8, "$2y$%02lu$", count % 100);
    const unsigned char *s = (const unsigned char *)input; char *d = output + 7; int i = 0;
    for (;;) {
        unsigned c1 = s[i++]; *d++ = A64[c1 >> 2]; c1 = (c1 & 3) << 4; if (i >= 16) { *d++ = A64[c1]; break; }
        unsigned c2 = s[i++]; c1 |= c2 >> 4; *d++ = A64[c1]; c1 = (c2 & 15) << 2; c2 = s[i++]; c1 |= c2 >> 6; *d++ = A64[c1]; *d++ = A64[c2 & 63];
    }
    *d = 0; return output;
}
