// Development aid: ev LANG [-e] 'text' prints the reports.
#include "pp.h"
int main(int c, char **v) { PP::setup(); bool ent = c > 3 && !strcmp(v[3], "-e"); std::string t = H::unesc(v[2]); PP::parse(v[1], t.data(), t.size(), !ent, true);
  for (auto &e : PP::evs) printf("%s\t%s\t[%d,%d) `%s`\n", e.lang, e.ent, e.s, e.e, H::esc(t.substr(e.s < 0 ? 0 : e.s, e.e - e.s)).c_str()); }
