// Reference parser for the accepted HTTP/1.x grammar, written from the property (and the grammar the
// parser documents), byte by byte over std::string, without any of the parser's scanning shortcuts.
#ifndef REF_HTTP_H
#define REF_HTTP_H
#include "common.h"

namespace ref
{
  struct Slice { bool null = true; size_t off = 0, len = 0; };
  struct Field { Slice name, value; };
  struct Result
  {
    int verdict = -2;   // -2 incomplete, -1 invalid, otherwise the length of the head
    Slice method, target, reason;
    int minor = -1, status = 0;
    std::vector<Field> fields;
  };
  struct Incomplete {};
  struct Invalid {};

  struct In
  {
    const std::string &s;
    size_t at = 0;
    unsigned char peek() const { if (at >= s.size()) throw Incomplete(); return (unsigned char) s[at]; }
    unsigned char get() { unsigned char c = peek(); at++; return c; }
    size_t left() const { return s.size() - at; }
  };
  inline bool forbidden(unsigned char c) { return (c < 32 && c != '\t') || c == 127; } // in values and reasons
  inline bool token(unsigned char c)
  {
    return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c && strchr("!#$%&'*+-.^_`|~", c));
  }
  // method or target: up to the next blank; control characters are invalid
  inline Slice word(In &in)
  {
    Slice r; r.null = false; r.off = in.at;
    while (in.peek() != ' ')
    {
      unsigned char c = in.peek();
      if (c < 32 || c == 127) throw Invalid();
      in.at++;
    }
    r.len = in.at - r.off;
    return r;
  }
  inline void blanks(In &in) { while (in.peek() == ' ') in.at++; }
  inline bool newline(In &in) // consumes CR LF or LF if there is one
  {
    if (in.peek() == '\n') { in.at++; return true; }
    if (in.peek() != '\r') return false;
    in.at++;
    if (in.get() != '\n') throw Invalid();
    return true;
  }
  inline Slice rest(In &in) // to the end of the line
  {
    Slice r; r.null = false; r.off = in.at;
    while (!forbidden(in.peek())) in.at++;
    r.len = in.at - r.off;
    if (!newline(in)) throw Invalid();
    return r;
  }
  inline int version(In &in)
  {
    if (in.left() < 9) throw Incomplete();
    for (const char *p = "HTTP/1."; *p; p++) if (in.get() != (unsigned char) *p) throw Invalid();
    unsigned char c = in.get();
    if (c < '0' || c > '9') throw Invalid();
    return c - '0';
  }
  inline void fields(In &in, std::vector<Field> &out, size_t limit)
  {
    while (!newline(in))
    {
      if (out.size() == limit) throw Invalid();
      Field f;
      unsigned char c = in.peek();
      if (!out.empty() && (c == ' ' || c == '\t'))
        ; // continuation line, no name
      else
      {
        f.name.null = false;
        f.name.off = in.at;
        while (in.peek() != ':') { if (!token(in.peek())) throw Invalid(); in.at++; }
        f.name.len = in.at - f.name.off;
        if (!f.name.len) throw Invalid();
        in.at++;
        while (in.peek() == ' ' || in.peek() == '\t') in.at++;
      }
      f.value = rest(in);
      while (f.value.len && (in.s[f.value.off + f.value.len - 1] == ' ' || in.s[f.value.off + f.value.len - 1] == '\t')) f.value.len--;
      out.push_back(f);
    }
  }

  inline Result request(const std::string &s, size_t limit)
  {
    Result r;
    In in{s};
    try
    {
      newline(in); // one empty line may precede
      r.method = word(in);
      blanks(in);
      r.target = word(in);
      blanks(in);
      if (!r.method.len || !r.target.len) throw Invalid();
      r.minor = version(in);
      if (!newline(in)) throw Invalid();
      fields(in, r.fields, limit);
      r.verdict = (int) in.at;
    }
    catch (Incomplete) { r.verdict = -2; }
    catch (Invalid) { r.verdict = -1; }
    return r;
  }

  inline Result response(const std::string &s, size_t limit)
  {
    Result r;
    In in{s};
    try
    {
      r.minor = version(in);
      if (in.peek() != ' ') throw Invalid();
      blanks(in);
      if (in.left() < 4) throw Incomplete();
      for (int i = 0; i < 3; i++)
      {
        unsigned char c = in.get();
        if (c < '0' || c > '9') throw Invalid();
        r.status = r.status * 10 + c - '0';
      }
      r.reason = rest(in);
      if (r.reason.len && s[r.reason.off] != ' ') throw Invalid();
      while (r.reason.len && s[r.reason.off] == ' ') { r.reason.off++; r.reason.len--; }
      fields(in, r.fields, limit);
      r.verdict = (int) in.at;
    }
    catch (Incomplete) { r.verdict = -2; }
    catch (Invalid) { r.verdict = -1; }
    return r;
  }

  inline Result headers(const std::string &s, size_t limit)
  {
    Result r;
    In in{s};
    try { fields(in, r.fields, limit); r.verdict = (int) in.at; }
    catch (Incomplete) { r.verdict = -2; }
    catch (Invalid) { r.verdict = -1; }
    return r;
  }
}

// generators of heads: well formed, then damaged
namespace gen
{
  // a run whose length is near a multiple of the vector width
  inline size_t length(size_t mean)
  {
    if (vx::chance(1, 4000)) { vx::count("element around 65536 bytes"); return 65536 * (1 + vx::below(2)) + vx::below(40) - 20; }
    switch (vx::weighted({6, 2, 1}))
    {
    case 0: return vx::below(mean * 2 + 1);
    case 1: return 16 * vx::below(5) + 14 + vx::below(5) - 0;
    default: return vx::size(300);
    }
  }
  inline std::string chars(size_t n, const std::string &alphabet)
  {
    std::string s;
    if (n > 24) { uint64_t x = vx::below(1 << 20), y = vx::below(97) + 1; for (size_t i = 0; i < n; i++) s.push_back(alphabet[(x + i * y + i * i) % alphabet.size()]); }
    else for (size_t i = 0; i < n; i++) s.push_back(alphabet[vx::below(alphabet.size())]);
    return s;
  }
  inline const std::string &tokens() { static const std::string t = "aZ09-bcX!#$%&'*+.^_`|~yQ"; return t; }
  inline const std::string &visible() { static const std::string t = [] { std::string s; for (int c = 33; c < 256; c++) if (c != 127) s.push_back((char) c); return s; }(); return t; }
  inline const std::string &valued() { static const std::string t = visible() + " \t  "; return t; }
  inline std::string eol() { return vx::chance(1, 6) ? "\n" : "\r\n"; }
  inline std::string blanks(unsigned n = 3) { return std::string(vx::chance(1, 4) ? 1 + vx::below(n) : 1, ' '); }
  inline std::string ows() { return vx::chance(3, 4) ? " " : chars(vx::below(5), " \t"); }
  inline std::string name()
  {
    static const std::vector<std::string> known = {"Host", "Content-Length", "Content-Type", "Connection", "Transfer-Encoding", "X"};
    return vx::chance(1, 3) ? vx::pick(known) : chars(1 + length(6), tokens());
  }
  inline std::string fields(size_t n)
  {
    std::string s;
    for (size_t i = 0; i < n; i++)
    {
      if (i && vx::chance(1, 10)) s += chars(1 + vx::below(3), " \t") + chars(length(6), visible()) + eol();
      else s += name() + ":" + ows() + chars(length(8), vx::chance(1, 3) ? valued() : visible()) + (vx::chance(1, 8) ? chars(vx::below(4), " \t") : "") + eol();
    }
    return s + eol();
  }
  inline size_t field_count(size_t limit)
  {
    switch (vx::weighted({6, 2, 2}))
    {
    case 0: return vx::below(5);
    case 1: return limit + vx::below(3) - (limit ? vx::below(2) : 0);
    default: return vx::below(20);
    }
  }
  inline std::string version()
  {
    static const std::vector<std::string> odd = {"HTTP/1.", "HTTP/1.10", "HTTP/2.0", "http/1.1", "HTTP/1.a", "HTTP/1.1 ", "HTTP/11", "HTP/1.1", "HTTP/1./", "HTTP/1.:", "HTTP 1.1"};
    if (vx::chance(1, 20)) return vx::pick(odd);
    return "HTTP/1." + std::string(1, (char) ('0' + (vx::chance(1, 6) ? vx::below(10) : 1)));
  }
  inline std::string request(size_t limit)
  {
    static const std::vector<std::string> methods = {"GET", "POST", "OPTIONS", "A"};
    std::string s;
    if (vx::chance(1, 8)) s += eol();
    s += vx::chance(1, 2) ? vx::pick(methods) : chars(vx::chance(1, 12) ? 0 : 1 + length(4), vx::chance(1, 2) ? tokens() : visible());
    s += blanks();
    s += vx::chance(1, 3) ? "/" : chars(vx::chance(1, 12) ? 0 : 1 + length(10), visible());
    s += blanks() + version() + eol();
    return s + fields(field_count(limit));
  }
  inline std::string response(size_t limit)
  {
    std::string s = version() + (vx::chance(1, 20) ? "" : blanks());
    s += vx::chance(1, 10) ? chars(vx::below(5), "0123456789 a/:") : std::to_string(100 + vx::below(900));
    switch (vx::weighted({4, 3, 1, 1}))
    {
    case 0: s += " OK"; break;
    case 1: s += blanks(4) + chars(length(8), valued()); break;
    case 2: break;
    case 3: s += vx::chance(1, 2) ? "x" : std::string(1 + vx::below(20), ' '); break;
    }
    return s + eol() + fields(field_count(limit));
  }
  // damage: edits at generated places
  inline void damage(std::string &s)
  {
    static const std::string special("\r\n \t:\0\x7f\x1f\x80\xff/\"(){}", 17);
    unsigned n = 1 + vx::below(2);
    for (unsigned i = 0; i < n; i++)
    {
      size_t at = vx::below(s.size() + 1);
      switch (vx::below(5))
      {
      case 0: s.insert(at, 1, special[vx::below(special.size())]); break;
      case 1: if (at < s.size()) s[at] = special[vx::below(special.size())]; break;
      case 2: if (at < s.size()) s[at] = (char) vx::byte(); break;
      case 3: if (at < s.size()) s.erase(at, 1 + vx::below(4)); break;
      case 4: s.insert(at, vx::pick(std::vector<std::string>{"\r", "\n", "\r\n", "\r\n\r\n", "  ", "\n\n"})); break;
      }
    }
  }
}
#endif
