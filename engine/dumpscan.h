// Scanner for the textual dump ("name: v", "name { v v }"), shared by symx
// (where values are placeholders \x01<index>\x02) and the native replay.
#pragma once
#include <cctype>
#include <cstdint>
#include <cstdlib>
#include <string>
#include <utility>
#include <vector>

struct DumpVal { bool placeholder; uint64_t v; };
struct DumpNames { std::vector<std::pair<std::string, std::vector<DumpVal>>> items; };

static inline void dumpScan(const std::string& t, DumpNames& out) {
  struct Tok { char k; std::string s; DumpVal v; };
  std::vector<Tok> toks;
  size_t i = 0, n = t.size();
  while (i < n) {
    char c = t[i];
    if (isspace((unsigned char)c)) { i++; continue; }
    if (c == '(') { while (i < n && t[i] != ')') i++; i++; continue; }
    if (c == '\x01') { size_t j = t.find('\x02', i); toks.push_back({'n', "", {true, strtoull(t.c_str() + i + 1, nullptr, 10)}}); i = j + 1; continue; }
    if (c == '0' && i + 2 < n && t[i + 1] == 'x' && t[i + 2] == '\x01') { i += 2; continue; }
    if (isdigit((unsigned char)c) || (c == '-' && i + 1 < n && (isdigit((unsigned char)t[i + 1]) ))) {
      char* e; long long v = strtoll(t.c_str() + i, &e, (c == '0' && i + 1 < n && t[i + 1] == 'x') ? 16 : 10);
      toks.push_back({'n', "", {false, (uint64_t)v}}); i = e - t.c_str(); continue; }
    if (isalpha((unsigned char)c) || c == '_') { size_t j = i; for (;;) { while (j < n && (isalnum((unsigned char)t[j]) || t[j] == '_')) j++;
      // an index is part of the name: name[0]_x
      if (j + 1 < n && t[j] == '[' && isdigit((unsigned char)t[j + 1])) { size_t q = j + 1; while (q < n && isdigit((unsigned char)t[q])) q++; if (q < n && t[q] == ']') { j = q + 1; continue; } }
      break; }
      toks.push_back({'i', t.substr(i, j - i), {}}); i = j; continue; }
    toks.push_back({c, "", {}}); i++;
  }
  for (size_t k = 0; k + 1 < toks.size(); k++) {
    if (toks[k].k != 'i') continue;
    std::vector<DumpVal> vs;
    if (toks[k + 1].k == ':' && k + 2 < toks.size() && toks[k + 2].k == '{') { for (size_t j = k + 3; j < toks.size() && toks[j].k == 'n'; j++) vs.push_back(toks[j].v); }
    else if (toks[k + 1].k == ':') { for (size_t j = k + 2; j < toks.size() && toks[j].k == 'n'; j++) { vs.push_back(toks[j].v); } }
    else if (toks[k + 1].k == '{') { int d = 1; for (size_t j = k + 2; j < toks.size() && d > 0; j++) { if (toks[j].k == '{') d++; else if (toks[j].k == '}') d--; else if (toks[j].k == 'n') vs.push_back(toks[j].v); else break; } }
    else continue;
    out.items.push_back({toks[k].s, vs});
  }
}

// whitespace runs collapsed to one space; placeholders to \x01 (their indices
// are appended to ph, in order)
static inline std::string dumpNorm(const std::string& t, std::vector<size_t>* ph = nullptr) {
  std::string o;
  for (size_t i = 0; i < t.size(); i++) {
    if (isspace((unsigned char)t[i])) { if (!o.empty() && o.back() != ' ') o += ' '; continue; }
    if (t[i] == '\x01') { size_t j = t.find('\x02', i); if (ph) ph->push_back((size_t)strtoull(t.c_str() + i + 1, nullptr, 10)); o += '\x01'; i = j; continue; }
    o += t[i];
  }
  while (!o.empty() && o.back() == ' ') o.pop_back();
  return o;
}
// the name a dump begins with
static inline std::string dumpHead(const std::string& norm) { size_t i = norm.find('{'); std::string h = norm.substr(0, i == std::string::npos ? norm.size() : i); while (!h.empty() && h.back() == ' ') h.pop_back(); return h; }
static inline bool dumpStarts(const std::string& norm, const std::string& name) {
  if (norm.compare(0, name.size(), name) == 0 && (norm.size() == name.size() || norm[name.size()] == ' ' || norm[name.size()] == ':')) return true;
  std::string h = dumpHead(norm);  // "sei message {"
  return h.size() > name.size() && h.compare(h.size() - name.size(), name.size(), name) == 0 && h[h.size() - name.size() - 1] == ' ';
}
static inline size_t dumpFind(const std::string& in, const std::string& kid, size_t from) {
  for (size_t p = from;; p++) {
    p = in.find(kid, p);
    if (p == std::string::npos) return p;
    if ((p == 0 || in[p - 1] == ' ') && (p + kid.size() == in.size() || in[p + kid.size()] == ' ')) return p;
  }
}
// the layout of a dump printed with indentation: one entry per line, indented
// by its nesting depth; braces balanced.  Empty when fine.
static inline std::string dumpLayout(const std::string& t) {
  size_t depth = 0, pos = 0;
  if (!t.empty() && t[0] == '\n') return "";  // printed inside its parent's braces
  bool first = true;
  std::string head;
  while (pos <= t.size()) {
    size_t e = t.find('\n', pos);
    if (e == std::string::npos) e = t.size();
    std::string l = t.substr(pos, e - pos);
    pos = e + 1;
    size_t ind = 0;
    while (ind < l.size() && l[ind] == ' ') ind++;
    while (!l.empty() && l.back() == ' ') l.pop_back();
    if (l.size() <= ind) { if (first) return "starts with an empty line"; continue; }
    size_t want = 2 * depth, i = ind;
    if (first) head = l;
    // several structures in a row
    if (depth == 0 && !first && l != head) return "text after the end: " + l;
    if (l[ind] == '}') {
      want -= 2; depth--; i = l.size();
      if (l.size() != ind + 1) return "text after a closing brace: " + l;
    }
    if (ind != want) return "indentation: " + l;
    // one entry, its values; braces closed on the same line, or one left open at the end
    size_t open = 0, entries = 0;
    if (i < l.size() && !isalpha((unsigned char)l[i]) && l[i] != '_') return "no name: " + l;
    for (; i < l.size(); i++) {
      char c = l[i];
      if (c == '(') { while (i < l.size() && l[i] != ')') i++; continue; }
      if (c == '{') { open++; size_t b = i; while (b > 0 && l[b - 1] == ' ') b--; if (b > 0 && (isalnum((unsigned char)l[b - 1]) || l[b - 1] == '_')) { bool letters = false; for (size_t q = b; q-- > 0 && l[q] != ' ';) letters |= isalpha((unsigned char)l[q]) != 0; entries += letters; } }
      if (c == '}') { if (!open) return "stray closing brace: " + l; open--; }
      if (c == ':') { bool letters = false; for (size_t q = i; q-- > 0 && l[q] != ' ';) letters |= isalpha((unsigned char)l[q]) != 0; entries += letters; }
    }
    if (entries > 1) return "several entries on a line: " + l;
    if (open > 1 || (open == 1 && l.back() != '{')) return "unbalanced: " + l;
    depth += open;
    first = false;
  }
  return depth ? "missing closing brace" : "";
}
