// Alphabets for the checks that only look at invariants: the languages' delimiters, and their single characters.
#pragma once
#include "spec.h"
#define HTML_T "<", ">", "\"", "'", "<!--", "-->", "<style type=\"text/css\">", "</style>", "<script type='text/javascript'>", "</script>", "/*", "*/"
static const std::vector<std::pair<const char *, std::vector<std::string>>> EMB_TOKENS = {
  {"html", {HTML_T}}, {"php", {HTML_T, "<?php", "?>", "#", "?"}}, {"jsp", {HTML_T, "<%", "%>"}},
  {"rhtml", {HTML_T, "<%", "%>", "#"}}, {"cs_aspx", {HTML_T, "<%", "%>", "<script runat='server'>"}},
  {"vb_aspx", {HTML_T, "<%", "%>", "<script runat='server'>"}}, {"clearsilver_template", {HTML_T, "<?cs", "?>", "#"}},
  {"haml", {"%p", "=", "-", "/", "-#", "  ", "#", "\"", "'", "{", "}", ".", "<", "["}},
  {"mxml", {"<mx:Style>", "</mx:Style>", "<mx:Script>", "</mx:Script>", "<!--", "-->", "\"", "'", "/*", "*/", "//", "<![CDATA[", "]]>"}},
  {"nix", {"\"", "''", "'", "#", "/*", "*/", "\\"}}, {"coffeescript", {"`", "###", "#", "\"", "'", "\"\"\"", "'''", "//", "/*", "*/", "\\"}},
  {"metapost_with_tex", {"btex", "verbatimtex", "etex", "%", "\"", "\\", "x"}},
};
static inline std::vector<std::string> tokens_of(const char *lang, bool chars) {
  std::vector<std::string> v;
  auto sp = SP::spec_of(lang);
  if (sp) v = SP::alphabet(*sp, chars);
  else {
    std::set<std::string> d;
    for (auto &e : EMB_TOKENS) if (!strcmp(e.first, lang)) for (auto &t : e.second) {
      if (!chars || isalpha((unsigned char)t[0]) || t.size() > 6) d.insert(t); else for (char c : t) d.insert(std::string(1, c));
    }
    v.assign(d.begin(), d.end());
    v.push_back("a"); v.push_back(" "); v.push_back("\n");
  }
  return v;
}
