/* C05: rendering as text, and date-times. */
#include "sbmodel.h"
#include "CppPotpourri.h"
#include <time.h>
#include <math.h>
const char* VF_PROPERTY = "C05";
const char* VF_RULE = "A case renders 6-30 values (formatted text of up to 5000 characters, numbers, buffers as hex, timestamps) and reads date-times; judged by vsnprintf, timegm and a hex reader. Non-trivial always. Distinct by the text of the history.";
using namespace vf;
void vf_setup() { setenv("TZ", "UTC", 1); tzset(); }

static void fmt_case(Ctx& c, StringBuilder& sb, std::string& x) {
  Rng& r = c.rng;
  char* t = nullptr; int n = 0, g = 0;
  #define F(...) do { n = asprintf(&t, __VA_ARGS__); g = sb.concatf(__VA_ARGS__); } while (0)
  const uint32_t k = r.below(14);
  int w = (int)r.below(r.chance(1, 6) ? 1500 : 40), i = (int)r.edgyBits(32, true); uint64_t u = r.edgy64(); double d = r.chance(1, 3) ? r.edgyDouble() : (double)r.range(-1000000, 1000000) / 128;
  std::string s = rnd_bytes(r, (int)r.below(r.chance(1, 6) ? 5000 : 60), 4);
  if (r.chance(1, 5)) { static const int E[] = {255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096}; s = rnd_bytes(r, E[r.below(13)] - (int)r.below(3), 1); }
  const int q60 = (int)r.below(60), ca = 'a' + (int)r.below(26), cb = 1 + (int)r.below(255), w3 = (int)r.below(3000);
  switch (k) {
    case 0: F("%d %u %x %X %o", i, (unsigned)i, (unsigned)i, (unsigned)i, (unsigned)i); break;
    case 1: F("%*d|%-*d|%0*d", w, i, w, i, w, i); break;
    case 2: F("%s", s.c_str()); break;
    case 3: F("<%.*s>%s", w, s.c_str(), s.c_str()); break;
    case 4: F("%llu %lld %llx", (unsigned long long)u, (long long)u, (unsigned long long)u); break;
    case 5: F("%f %.3f %g %e", d, d, d, d); break;
    case 6: F("%.*f", q60, d); break;
    case 7: F("%c%c%c", ca, cb, '%'); break;
    case 8: F("%5s|%-9s|%%", s.substr(0, 12).c_str(), s.substr(0, 3).c_str()); break;
    case 9: F("%p %zu %hhu", (void*)(uintptr_t)(u & 0xffff), (size_t)w, (unsigned char)i); break;
    case 10: F("%s%s%s%s", s.c_str(), s.c_str(), s.c_str(), s.c_str()); break;
    case 11: F("%08.3f|%+d|% d|%#x", d, i, i, (unsigned)i); break;
    case 12: { std::string z(""); F("%s", z.c_str()); break; }
    default: F("%*s", w3, "x"); break;
  }
  c.op("format %u -> %d", k, g); c.hash(t, (size_t)n);
  VF_CHECK(g == n, "format-length", "formatted append %u of %d characters gave %d", k, n, g);
  x.append(t, (size_t)n); free(t);
  c.feat(mix(k, n > 255 ? 2 + (n > 1023) : n > 0)); c.count(n > 256 ? "formats_long" : "formats");
}

void vf_case(Ctx& c) {
  Rng& r = c.rng;
  StringBuilder sb; std::string x;
  const int steps = 6 + (int)r.below(24);
  for (int st = 0; st < steps; st++) {
    const uint32_t k = r.below(10);
    if (k < 4) fmt_case(c, sb, x);
    else if (k == 4) {
      char t[400];
      switch (r.below(5)) {
        case 0: { int v = (int)r.edgyBits(32, true); sb.concat(v); snprintf(t, 400, "%d", v); break; }
        case 1: { unsigned v = (unsigned)r.edgyBits(32, false); sb.concat(v); snprintf(t, 400, "%u", v); break; }
        case 2: { double v = r.edgyDouble(); sb.concat(v); snprintf(t, 400, "%f", v); break; }
        case 3: { float v = r.edgyFloat(); sb.concat(v); snprintf(t, 400, "%f", (double)v); break; }
        default: { bool v = r.chance(1, 2); sb.concat(v); snprintf(t, 400, "%s", v ? "T" : "F"); break; }
      }
      x += t; c.op("number %s", t); c.count("numbers");
    }
    else if (k < 7) {    // Hex dump, read back.
      int n = (int)r.below(r.chance(1, 10) ? 5000 : 70); if (r.chance(1, 400)) { n = 65000 + (int)r.below(2000); c.count("vast_dumps"); } std::string b = rnd_bytes(r, n, 0);
      static const char* const IND[] = {"\t", "", "  ", "# "};
      const char* ind = IND[r.below(4)];
      uint8_t* exact = (uint8_t*)malloc(n ? (size_t)n : 1); memcpy(exact, b.data(), (size_t)n);
      StringBuilder o; StringBuilder::printBuffer(&o, exact, (uint32_t)n, ind); free(exact);
      std::string t = sb_read(&o); c.op("dump %d bytes", n); c.hash(b.data(), b.size());
      VF_CHECK(!t.empty() && t[t.size() - 1] == '\n', "dump-lines", "a dump does not end in a line end");
      if (n) {
        std::string got; size_t i = 0; 
        while (i < t.size()) {
          size_t e = t.find('\n', i); std::string line = t.substr(i, e - i); i = e + 1;
          VF_CHECK(0 == line.compare(0, strlen(ind), ind), "dump-indent", "a dumped line \"%s\" is not indented", line.c_str());
          const char* p = line.c_str() + strlen(ind); char* q; unsigned long off = strtoul(p, &q, 16);
          VF_CHECK(q != p && *q == ':' && off == got.size(), "dump-offset", "a dumped line \"%s\" should have offset %x", line.c_str(), (unsigned)got.size());
          p = q + 1; for (;;) { while (*p == ' ') p++; if (!*p) break; VF_CHECK(isxdigit((unsigned char)p[0]) && isxdigit((unsigned char)p[1]), "dump-hex", "a dumped line \"%s\"", line.c_str()); char h[3] = {p[0], p[1], 0}; got += (char)strtoul(h, nullptr, 16); p += 2; }
        }
        VF_CHECK(got == b, "dump-content", "a dump of %s shows %s", quote(b.data(), b.size()).c_str(), quote(got.data(), got.size()).c_str());
      }
      c.count("dumps"); c.feat(mix(77, n % 16 + (n > 16) * 100));
    }
    else if (k < 9) {    // Date-times
      struct tm tm; memset(&tm, 0, sizeof tm);
      static const int MD[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
      int y = 1970 + (int)r.below(130), mo = 1 + (int)r.below(12), leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
      int md = MD[mo - 1] + (mo == 2 && leap), d = r.chance(1, 4) ? md : r.chance(1, 4) ? 1 : 1 + (int)r.below((uint32_t)md);
      if (r.chance(1, 6)) mo = 2, d = 28 + leap; else if (r.chance(1, 6)) mo = 3, d = 1;
      int h = r.chance(1, 4) ? 23 * (int)r.below(2) : (int)r.below(24), mi = r.chance(1, 4) ? 59 * (int)r.below(2) : (int)r.below(60), s = r.chance(1, 4) ? 59 * (int)r.below(2) : (int)r.below(60);
      tm.tm_year = y - 1900; tm.tm_mon = mo - 1; tm.tm_mday = d; tm.tm_hour = h; tm.tm_min = mi; tm.tm_sec = s;
      // Days from civil, as time_t may be narrow.
      int yy = y - (mo <= 2), era = yy / 400, yoe = yy - era * 400, doy = (153 * (mo + (mo > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
      uint64_t want = (uint64_t)(era * 146097 + doe - 719468) * 86400 + (uint64_t)(h * 3600 + mi * 60 + s);
      char t[40]; snprintf(t, 40, "%04d-%02d-%02dT%02d:%02d:%02dZ", y, mo, d, h, mi, s);
      char* exact = (char*)malloc(21); strcpy(exact, t);
      uint64_t got = stringToTimestamp(exact); c.op("date-time %s -> %llu", t, (unsigned long long)got); c.count("datetimes");
      VF_CHECK(got == want, "datetime", "\"%s\" is read as %llu, should be %llu", t, (unsigned long long)got, (unsigned long long)want);
      c.feat(mix(88, mix(leap, mo)));
      // Rendering.
      if (sizeof(time_t) == 8 || want < 0x7fffffff) {
        StringBuilder o; timestampToString(&o, want); std::string tx = sb_read(&o); char w[40]; snprintf(w, 40, "%02d:%02d:%02d %04d-%02d-%02d", h, mi, s, y, mo, d);
        VF_CHECK(tx == w, "timestamp-text", "%llu is rendered \"%s\", should be \"%s\"", (unsigned long long)want, tx.c_str(), w);
      }
      // Impossible fields.
      int bad = (int)r.below(6); int v[6] = {y, mo, d, h, mi, s};
      switch (bad) { case 0: v[0] = (int)r.below(1970); break; case 1: v[1] = r.chance(1, 4) ? 0 : 13 + (int)r.below(87); break; case 2: v[2] = 32 + (int)r.below(68); break; case 3: v[3] = 24 + (int)r.below(76); break; case 4: v[4] = 60 + (int)r.below(40); break; default: v[5] = 60 + (int)r.below(40); }
      snprintf(exact, 21, "%04d-%02d-%02dT%02d:%02d:%02dZ", v[0], v[1], v[2], v[3], v[4], v[5]);
      got = stringToTimestamp(exact);
      VF_CHECK(got == 0, "datetime-impossible", "\"%s\" is read as %llu", exact, (unsigned long long)got);
      free(exact); c.count("datetimes_refused");
    }
    else {     // Copies of text
      bool lng = r.chance(1, 12); std::string s = rnd_bytes(r, (int)r.below(lng ? r.chance(1, 4) ? 70000 : 700 : 40), 4); unsigned lim = lng && r.chance(1, 2) ? r.below(800) : r.below(45);
      char* exact = (char*)malloc(s.size() + 1); memcpy(exact, s.c_str(), s.size() + 1);
      char* g = StringBuilder::deep_copy(exact, lim); std::string w = lim ? s.substr(0, lim) : s; free(exact);
      c.op("deep copy %u limit %u", (unsigned)s.size(), lim);
      VF_CHECK(g && w == g, "deep-copy", "a copy of \"%.300s\" limited to %u is \"%.300s\"", s.c_str(), lim, g ? g : "(null)"); free(g);
    }
    if (x.size() > 20000) { sb.clear(); x.clear(); }
    sb_expect(&sb, x, "rendered", "after an append");
  }
  c.nontrivial = true;
}
