// RIPEMD-160 and SHA-256, written from the specifications, independent of the code under test.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>

namespace model {
inline uint32_t rol(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
inline std::string md_pad(std::string_view s, bool be) {
   std::string m(s);
   m += char(0x80);
   while (m.size() % 64 != 56) m += char(0);
   uint64_t bits = uint64_t(s.size()) * 8;
   for (int i = 0; i < 8; ++i) m += char(bits >> (be ? 56 - 8 * i : 8 * i));
   return m;
}
inline std::string ripemd160(std::string_view s) {
   static const uint8_t r1[80] = { 0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,
      3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2, 4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13 };
   static const uint8_t r2[80] = { 5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,
      15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14, 12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11 };
   static const uint8_t s1[80] = { 11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,
      11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12, 9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6 };
   static const uint8_t s2[80] = { 8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,
      9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8, 8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11 };
   static const uint32_t k1[5] = { 0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e };
   static const uint32_t k2[5] = { 0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0 };
   auto f = [](int j, uint32_t x, uint32_t y, uint32_t z) -> uint32_t {
      switch (j) { case 0: return x ^ y ^ z; case 1: return (x & y) | (~x & z); case 2: return (x | ~y) ^ z;
         case 3: return (x & z) | (y & ~z); default: return x ^ (y | ~z); }
   };
   uint32_t    h[5] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0 };
   std::string m    = md_pad(s, false);
   for (size_t b = 0; b < m.size(); b += 64) {
      uint32_t w[16];
      for (int i = 0; i < 16; ++i) w[i] = uint32_t(uint8_t(m[b + i * 4])) | uint32_t(uint8_t(m[b + i * 4 + 1])) << 8 | uint32_t(uint8_t(m[b + i * 4 + 2])) << 16 | uint32_t(uint8_t(m[b + i * 4 + 3])) << 24;
      uint32_t A = h[0], B = h[1], C = h[2], D = h[3], E = h[4], A2 = A, B2 = B, C2 = C, D2 = D, E2 = E;
      for (int j = 0; j < 80; ++j) {
         uint32_t t = rol(A + f(j / 16, B, C, D) + w[r1[j]] + k1[j / 16], s1[j]) + E;
         A = E; E = D; D = rol(C, 10); C = B; B = t;
         t = rol(A2 + f(4 - j / 16, B2, C2, D2) + w[r2[j]] + k2[j / 16], s2[j]) + E2;
         A2 = E2; E2 = D2; D2 = rol(C2, 10); C2 = B2; B2 = t;
      }
      uint32_t t = h[1] + C + D2;
      h[1] = h[2] + D + E2; h[2] = h[3] + E + A2; h[3] = h[4] + A + B2; h[4] = h[0] + B + C2; h[0] = t;
   }
   std::string r;
   for (auto x : h) for (int i = 0; i < 4; ++i) r += char(x >> (8 * i));
   return r;
}
inline std::string sha256(std::string_view s) {
   static uint32_t k[64];
   static uint32_t init[8];
   if (!k[0]) { // fractional parts of cube / square roots of the first primes
      int n = 0;
      for (int p = 2; n < 64; ++p) {
         bool prime = true;
         for (int q = 2; q * q <= p; ++q) if (p % q == 0) prime = false;
         if (!prime) continue;
         auto frac = [](long double x) { return uint32_t((x - (long double)(uint64_t)x) * 4294967296.0L); };
         if (n < 8) init[n] = frac(__builtin_sqrtl((long double)p));
         k[n++] = frac(__builtin_cbrtl((long double)p));
      }
   }
   uint32_t h[8];
   memcpy(h, init, sizeof h);
   std::string m = md_pad(s, true);
   auto        ror = [](uint32_t x, int n) { return (x >> n) | (x << (32 - n)); };
   for (size_t b = 0; b < m.size(); b += 64) {
      uint32_t w[64];
      for (int i = 0; i < 16; ++i) w[i] = uint32_t(uint8_t(m[b + i * 4])) << 24 | uint32_t(uint8_t(m[b + i * 4 + 1])) << 16 | uint32_t(uint8_t(m[b + i * 4 + 2])) << 8 | uint32_t(uint8_t(m[b + i * 4 + 3]));
      for (int i = 16; i < 64; ++i) w[i] = w[i - 16] + (ror(w[i - 15], 7) ^ ror(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 7] + (ror(w[i - 2], 17) ^ ror(w[i - 2], 19) ^ (w[i - 2] >> 10));
      uint32_t v[8];
      memcpy(v, h, sizeof v);
      for (int i = 0; i < 64; ++i) {
         uint32_t t1 = v[7] + (ror(v[4], 6) ^ ror(v[4], 11) ^ ror(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + k[i] + w[i];
         uint32_t t2 = (ror(v[0], 2) ^ ror(v[0], 13) ^ ror(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
         for (int j = 7; j > 0; --j) v[j] = v[j - 1];
         v[4] += t1; v[0] = t1 + t2;
      }
      for (int i = 0; i < 8; ++i) h[i] += v[i];
   }
   std::string r;
   for (auto x : h) for (int i = 3; i >= 0; --i) r += char(x >> (8 * i));
   return r;
}
} // namespace model
