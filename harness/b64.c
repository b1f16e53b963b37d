#include "vp.h"
#include <u/libu.h>

static const char ABC[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

/* value of each byte in the alphabet, -1 outside (RFC 4648, table 1) */
#define X -1
static const signed char DT[256] = {
    X,X,X,X,X,X,X,X,X,X,X,X,X,X,X,X, X,X,X,X,X,X,X,X,X,X,X,X,X,X,X,X,
    X,X,X,X,X,X,X,X,X,X,X,62,X,X,X,63, 52,53,54,55,56,57,58,59,60,61,X,X,X,X,X,X,
    X,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14, 15,16,17,18,19,20,21,22,23,24,25,X,X,X,X,X,
    X,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40, 41,42,43,44,45,46,47,48,49,50,51,X,X,X,X,X,
    X,X,X,X,X,X,X,X,X,X,X,X,X,X,X,X, X,X,X,X,X,X,X,X,X,X,X,X,X,X,X,X,
    X,X,X,X,X,X,X,X,X,X,X,X,X,X,X,X, X,X,X,X,X,X,X,X,X,X,X,X,X,X,X,X,
    X,X,X,X,X,X,X,X,X,X,X,X,X,X,X,X, X,X,X,X,X,X,X,X,X,X,X,X,X,X,X,X,
    X,X,X,X,X,X,X,X,X,X,X,X,X,X,X,X, X,X,X,X,X,X,X,X,X,X,X,X,X,X,X,X };
#define dec1(c) (DT[(unsigned char) (c)])

#if defined(H_ROUND)
/* encoder output is the RFC 4648 text and decodes back to the input */
int vp_main (void)
{
    uint8_t in[N], back[N];
    char *out;
    size_t n = (size_t) vp_pick(1, N), i, room = U_B64_LENGTH(n), bs, cap;
    int k = vp_pick(-1, 2);
    uint8_t *dst;
    vp_bytes(in, n);
    out = malloc(room + 1);
    if (k == -1)
    {
        size_t less = (size_t) vp_pick(1, 4);
        /* less room than needed: refused (and nothing written past the end) */
        free(out);
        out = malloc(room - less);
        VP_ASSERT(u_b64_encode(in, n, out, room - less) != 0, "encode without enough room fails");
        free(out);
        return 1;
    }
    VP_ASSERT(u_b64_encode(in, n, out, room + 1) == 0, "encode succeeds");
    VP_ASSERT(strlen(out) == room, "encoded length is U_B64_LENGTH");
    for (i = 0; i < room; i += 4)
    {
        unsigned b0 = in[i / 4 * 3], b1 = i / 4 * 3 + 1 < n ? in[i / 4 * 3 + 1] : 0, b2 = i / 4 * 3 + 2 < n ? in[i / 4 * 3 + 2] : 0;
        VP_ASSERT(out[i] == ABC[b0 >> 2], "1st character");
        VP_ASSERT(out[i + 1] == ABC[(b0 & 3) << 4 | b1 >> 4], "2nd character");
        VP_ASSERT(out[i + 2] == (i / 4 * 3 + 1 < n ? ABC[(b1 & 15) << 2 | b2 >> 6] : '='), "3rd character");
        VP_ASSERT(out[i + 3] == (i / 4 * 3 + 2 < n ? ABC[b2 & 63] : '='), "4th character");
    }
    /* decode into a buffer of exactly the right size, or larger */
    cap = n + (size_t) k;
    dst = malloc(cap);
    bs = cap;
    VP_ASSERT(u_b64_decode(out, room, dst, &bs) == 0, "decoding the encoder's output succeeds");
    VP_ASSERT(bs == n, "decoded size");
    VP_ASSERT(memcmp(dst, in, n) == 0, "decoded bytes");
    (void) back;
    free(dst);
    free(out);
    return 0;
}
#endif

#if defined(H_LONG)
/* long inputs, a few bytes of which are arbitrary */
int vp_main (void)
{
    static const int len[] = { 47, 48, 49, 57, 58, 76, 127, 128, 191, 192, 193, 255, 256, 257, 258, 510, 511, 512, 513, 767, 768, 769, 1023, 1024, 1025, 3071, 3072, 3073, 4095, 4096, 4097, 65535, 65536 };
    size_t n = (size_t) len[vp_pick(0, (int) (sizeof len / sizeof *len) - 1)], room = U_B64_LENGTH(n), i, k, bs = n;
    uint8_t *in = malloc(n), *back = malloc(n); char *out = malloc(room + 1);
    for (i = 0; i < n; ++i) in[i] = (uint8_t) (i * 7 + (i >> 8));
    k = vp_pick(0, n > 5000 ? 0 : 2);
    k = k == 0 ? n - 4 : k == 1 ? n / 2 : 0;
    vp_bytes(in + k, 4);
    VP_ASSERT(u_b64_encode(in, n, out, room + 1) == 0, "encode succeeds");
    VP_ASSERT(out[room] == '\0', "encoded length is U_B64_LENGTH");
    for (i = 0; i < room; i += 4)
    {
        size_t o = i / 4 * 3;
        unsigned b0 = in[o], b1 = o + 1 < n ? in[o + 1] : 0, b2 = o + 2 < n ? in[o + 2] : 0;
        VP_ASSERT(out[i] == ABC[b0 >> 2], "1st character");
        VP_ASSERT(out[i + 1] == ABC[(b0 & 3) << 4 | b1 >> 4], "2nd character");
        VP_ASSERT(out[i + 2] == (o + 1 < n ? ABC[(b1 & 15) << 2 | b2 >> 6] : '='), "3rd character");
        VP_ASSERT(out[i + 3] == (o + 2 < n ? ABC[b2 & 63] : '='), "4th character");
    }
    VP_ASSERT(u_b64_decode(out, room, back, &bs) == 0 && bs == n, "decoding the encoder's output succeeds");
    for (i = 0; i < n; ++i) VP_ASSERT(back[i] == in[i], "decoded bytes");
    /* one character spoiled, anywhere */
    i = (size_t) vp_pick(0, n > 5000 ? 0 : 2);
    i = i == 2 ? 0 : i == 1 ? room / 2 : room - 1;
    out[i] = (char) vp_u8();
    VP_ASSUME(dec1((unsigned char) out[i]) < 0 && out[i] != '=');
    bs = n;
    VP_ASSERT(u_b64_decode(out, room, back, &bs) != 0, "text that is not Base64 is refused");
    bs = n - 1;
    VP_ASSERT(u_b64_decode(out, room, back, &bs) != 0, "so is a small buffer");
    free(in); free(back); free(out);
    return 0;
}
#endif

#if defined(H_ANY)
/* arbitrary input text, arbitrary output capacity: exact-size heap buffers let
 * the engine see every access outside them */
int vp_main (void)
{
    size_t n = (size_t) vp_pick(1, N), cap = (size_t) vp_pick(0, CAP), got = cap, i, full, pad = 0, want;
    char *in = malloc(n);
    uint8_t *out = malloc(cap);
    int rc, bad = 0;
    vp_bytes(in, n);
    rc = u_b64_decode(in, n, out, &got);
    for (i = 0; i < n; ++i)
    {
        int p = (in[i] == '=') & ((i == n - 1) | ((i == n - 2) & (in[n - 1] == '=')));
        pad += (size_t) p;
        bad |= !p & (dec1(in[i]) < 0);
    }
    if (n % 4 != 0)
        bad = 1;
    if (bad)
    {
        VP_ASSERT(rc != 0, "text that is not Base64 is refused");
        free(in); free(out);
        return 1;
    }
    full = n / 4 * 3;
    want = full - pad;
    if (want > cap)
    {
        VP_ASSERT(rc != 0, "decode without enough room fails");
        free(in); free(out);
        return 1;
    }
    VP_ASSERT(rc == 0, "well formed text that fits is accepted");
    VP_ASSERT(got == want, "size reported is the decoded size");
    for (i = 0; i < want; ++i)
    {
        size_t q = i / 3 * 4;
        int a = dec1((unsigned char) in[q + i % 3]), b = dec1((unsigned char) in[q + i % 3 + 1]);
        uint8_t e = (uint8_t) (i % 3 == 0 ? a << 2 | b >> 4 : i % 3 == 1 ? (a & 15) << 4 | b >> 2 : (a & 3) << 6 | b);
        VP_ASSERT(out[i] == e, "decoded byte");
    }
    free(in); free(out);
    return 0;
}
#endif

#if defined(H_ENC)
/* the encoder with any output capacity */
int vp_main (void)
{
    size_t n = (size_t) vp_pick(1, N), cap = (size_t) vp_pick(0, CAP), need = (n + 2) / 3 * 4, i;
    uint8_t *in = malloc(n);
    char *out = malloc(cap);
    int rc;
    vp_bytes(in, n);
    rc = u_b64_encode(in, n, out, cap);
    if (cap < need)
        VP_ASSERT(rc != 0, "encoding without enough room fails");
    if (cap > need)
        VP_ASSERT(rc == 0, "encoding with enough room succeeds");
    if (rc == 0)
    {
        for (i = 0; i < need; ++i) VP_ASSERT(out[i] == '=' || dec1((unsigned char) out[i]) >= 0, "the text is in the alphabet");
        if (cap > need) VP_ASSERT(out[need] == '\0', "the text is terminated");
    }
    free(in); free(out);
    return 0;
}
#endif

#if defined(H_ARGS)
int vp_main (void)
{
    char t[8] = "QUJD"; uint8_t o[8]; size_t n = 8;
    VP_ASSERT(u_b64_decode(t, 4, o, NULL) != 0, "a missing size argument is refused");
    VP_ASSERT(u_b64_decode(NULL, 4, o, &n) != 0, "a missing input is refused");
    VP_ASSERT(u_b64_decode(t, 4, NULL, &n) != 0, "a missing output is refused");
    return 0;
}
#endif
