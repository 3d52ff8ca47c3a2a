// C11: Base64 is standard and lossless. C15 (part): decoding any text stays in bounds.
#include "repo.h"
static int ref_char(unsigned v) {   // RFC 4648 alphabet
  if (v < 26) return 'A' + v; if (v < 52) return 'a' + (v - 26); if (v < 62) return '0' + (v - 52); return v == 62 ? '+' : '/';
}
static std::string ref_encode(const std::string& in) {
  std::string out; size_t n = in.size();
  for (size_t i = 0; i < n; i += 3) {
    unsigned b0 = (unsigned char)in[i], b1 = i + 1 < n ? (unsigned char)in[i + 1] : 0, b2 = i + 2 < n ? (unsigned char)in[i + 2] : 0;
    unsigned v = b0 << 16 | b1 << 8 | b2;
    out.push_back((char)0); out.push_back((char)0); out.push_back((char)0); out.push_back((char)0);
    for (int k = 0; k < 4; k++) out[out.size() - 4 + k] = (char)(v >> (18 - 6 * k) & 63);   // sextets, mapped by the caller
    if (i + 1 >= n) out[out.size() - 2] = 127; if (i + 2 >= n) out[out.size() - 1] = 127;
  }
  return out;
}
static std::string sym_bytes(const char* n, size_t len) { std::string s(len, 0); for (size_t i = 0; i < len; i++) s[i] = (char)__sym_bv(n, 8); return s; }

// every byte string of every length up to n: encode equals the standard text and decode gives the bytes back
ENTRY(e_encode) {
  int n = (int)PARAM("n", 6);
  std::string in = sym_bytes("byte", n);
  std::string out = Base64::encode(in);
  CHECK(out.size() == (size_t)(n + 2) / 3 * 4, "encoded text has the standard length");
  std::string ref = ref_encode(in);
  for (size_t i = 0; i < out.size(); i++) {
    if (ref[i] == 127) CHECK(out[i] == '=', "missing positions are padded with =");
    else {
      unsigned v = ref[i]; int c = (signed char)out[i];
      bool ok = ((v < 26) & (c == (int)('A' + v))) | ((v >= 26) & (v < 52) & (c == (int)('a' + v - 26))) | ((v >= 52) & (v < 62) & (c == (int)('0' + v - 52))) | ((v == 62) & (c == '+')) | ((v == 63) & (c == '/'));
      CHECK(ok, "encoded character is the RFC 4648 character of its six bits");
    }
    OBS("enc", (unsigned char)out[i]);
  }
  REACH("encoded");
}
ENTRY(e_roundtrip) {
  int n = (int)PARAM("n", 6);
  std::string in = sym_bytes("byte", n);
  std::string back = Base64::decode(Base64::encode(in));
  CHECK(back.size() == in.size(), "decoding gives back the number of bytes");
  for (size_t i = 0; i < in.size(); i++) { CHECK(back[i] == in[i], "decoding gives back every byte"); OBS("dec", (unsigned char)back[i]); }
  REACH("roundtrip");
}
// a standard text (with its padding) decodes to the bytes it stands for
ENTRY(e_decode) {
  int q = (int)PARAM("quads", 1), pad = (int)PARAM("pad", 0);
  std::string txt; std::vector<unsigned> six;
  for (int i = 0; i < 4 * q - pad; i++) {
    unsigned v = (unsigned)__sym_bv("six", 6);
    if (i == 4 * q - pad - 1 && pad == 2) v &= 0x30; if (i == 4 * q - pad - 1 && pad == 1) v &= 0x3c;
    six.push_back(v); txt.push_back((char)ref_char((unsigned)__sym_concretize(v)));
  }
  for (int i = 0; i < pad; i++) { txt.push_back('='); six.push_back(0); }
  std::string out = Base64::decode(txt);
  CHECK(out.size() == (size_t)(3 * q - pad), "decoded length");
  for (size_t i = 0; i < out.size(); i++) {
    unsigned g = i / 3 * 4, v = six[g] << 18 | six[g + 1] << 12 | six[g + 2] << 6 | six[g + 3];
    CHECK((unsigned char)out[i] == (unsigned char)(v >> (16 - 8 * (i % 3))), "decoded byte"); OBS("byte", (unsigned char)out[i]);
  }
  REACH("decoded");
}
