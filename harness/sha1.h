// independent SHA-1 (FIPS 180-4), for short messages
static void ref_sha1_hex(const void *msg, uint32_t n, char *out) {
    uint32_t h[5] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0 };
    unsigned char b[256]; uint32_t total = ((n + 8) / 64 + 1) * 64;
    memset(b, 0, sizeof b); memcpy(b, msg, n); b[n] = 0x80;
    for(int i = 0; i < 8; i++) b[total - 1 - i] = (unsigned char) (((uint64_t) n * 8) >> (8 * i));
    for(uint32_t o = 0; o < total; o += 64) {
        uint32_t w[80], a[5];
        for(int i = 0; i < 16; i++) w[i] = (uint32_t) b[o + 4 * i] << 24 | b[o + 4 * i + 1] << 16 | b[o + 4 * i + 2] << 8 | b[o + 4 * i + 3];
        for(int i = 16; i < 80; i++) { uint32_t x = w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]; w[i] = x << 1 | x >> 31; }
        memcpy(a, h, sizeof a);
        for(int i = 0; i < 80; i++) {
            uint32_t f = i < 20 ? (a[1] & a[2]) | (~a[1] & a[3]) : i < 40 ? a[1] ^ a[2] ^ a[3] : i < 60 ? (a[1] & a[2]) | (a[1] & a[3]) | (a[2] & a[3]) : a[1] ^ a[2] ^ a[3];
            uint32_t k = i < 20 ? 0x5a827999 : i < 40 ? 0x6ed9eba1 : i < 60 ? 0x8f1bbcdc : 0xca62c1d6;
            uint32_t t = (a[0] << 5 | a[0] >> 27) + f + a[4] + k + w[i];
            a[4] = a[3]; a[3] = a[2]; a[2] = a[1] << 30 | a[1] >> 2; a[1] = a[0]; a[0] = t;
        }
        for(int i = 0; i < 5; i++) h[i] += a[i];
    }
    for(int i = 0; i < 40; i++) out[i] = "0123456789abcdef"[(h[i / 8] >> (28 - 4 * (i % 8))) & 15];
    out[40] = 0;
}
// asks for a challenge; 16 characters
static void challenge(int c, char *out) {
    z_assert(CMD(c, S("AUTH"), S("SECURE"), S("CHALLENGE")), "daemon-alive");
    z_assert(zr.n == 19 && zr.p[0] == '+' && zr.p[17] == '\r' && zr.p[18] == '\n', "challenge-reply");
    memcpy(out, zr.p + 1, 16); out[16] = 0;
}
static void digest(const char *nonce, const char *pw, char *out) {
    char m[200]; strcpy(m, nonce); strcat(m, ":"); strcat(m, pw); ref_sha1_hex(m, strlen(m), out);
}
