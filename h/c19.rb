# C19: platform facts of small sets of files in all orders, by the gestalt engine and by a reference evaluation of the rules.
$shard, $n = ARGV[0] == "replay" ? [0, 1] : [ARGV[0].to_i, ARGV[1].to_i]
$replay = ARGV[0] == "replay" ? ARGV[1] : nil
TIER, BASE, SO = ARGV[2..4]
THOROUGH = TIER == "thorough"
require 'fileutils'
require 'ohcount.so'
require BASE + '/ruby/gestalt.rb'
require_relative 'gestalts'
include Ohcount
$status = ENV["H_STATUS"] && File.open(ENV["H_STATUS"], "w+b")
def status(s) if $status then $status.pos = 0; $status.write(s.b + "\0"); $status.flush end end

# ---------------------------------------------------------------- the reference
# A file: its path, its parts (language, code) and, for build files, what they say.
F = Struct.new(:path, :contents, :parts, :language, :sf, :maven, :csproj, :hits)
def file(path, contents, maven = [], csproj = [])
  sf = contents.nil? ? SourceFile.new(path, :contents => "") : SourceFile.new(path, :contents => contents.dup)
  parts = sf.language_breakdowns.map { |b| [b.name, b.code.to_s, b.code_count] }
  F.new(path, contents, parts, sf.polyglot, SourceFile.new(path, :contents => (contents || "").dup), maven, csproj, {})
end
def whole(x) x.is_a?(Regexp) ? x : /\A#{Regexp.escape(x)}\z/ end
def any_of(words) (@any ||= {})[words] ||= Regexp.new(words.map { |w| "(?:" + (w.is_a?(Regexp) ? w : w.b) .to_s + ")" }.join("|").b) end
def times(text, words) n = 0; text.b.scan(any_of(words)) { n += 1 }; n end
def part(f, l) x = f.parts.find { |p| p[0] == l }; x && x[1] end
# how often the condition is met by a file
def hits(c, f) f.hits[c] ||= hits_(c, f) end
def hits_(c, f)
  case c[0]
  when :keywords
    case c[1]
    when :any then f.parts.sum { |p| times(p[1], c[3..-1]) }
    when 'c' then t = part(f, 'c') || part(f, 'cpp'); t ? times(t, c[3..-1]) : 0
    else t = part(f, c[1]); t ? times(t, c[3..-1]) : 0
    end
  when :headers
    return 0 unless %w(c cpp).include?(f.language)
    %w(c cpp).count { |l| t = part(f, l); t && t.b =~ /include[ \t]*['<"](?:#{c[1..-1].join("|")})["'>]/ni }
  when :filenames then f.path =~ any_of(c[1..-1].grep_v(Integer)) ? 1 : 0
  when :java_import
    t = part(f, 'java') or return 0
    t.b.lines.count { |l| l =~ /\A\s*import\s+([A-Za-z][A-Za-z0-9_.*-]*)/ && (i = $1.sub(/[.*-]+\z/, "")) && i =~ c[1] }
  when :csharp_using
    t = part(f, 'csharp') or return 0
    t.b.lines.count { |l| l =~ /\A\s*using\s+([A-Za-z][A-Za-z0-9_.*-]*)\s*;/ && $1 =~ c[1] }
  when :maven then f.maven.count { |t, g, a| t == c[1] && g =~ whole(c[2]) && (c[3].nil? || a =~ whole(c[3])) }
  when :csproj then f.csproj.count { |i| i =~ whole(c[1]) }
  end
end
NAMES = {} # name of a file => category (1 is markup)
def markup?(l) NAMES.fetch(l) { NAMES[l] = Ohcount.ohcount_hash_language_from_name(l).category == 1 } end
class World
  def initialize(files)
    @files = files; @facts = []; @counts = Hash.new(0); @seen = {}
    files.each { |f| f.parts.each { |l, _, n| @seen[l] = true; @counts[l] += n } }
    @total = @counts.sum { |l, n| markup?(l) ? 0 : n }; @sums = {}
  end
  attr_reader :facts
  # nil when the condition does not hold; otherwise the names of the facts it makes (nil: that of the definition)
  def holds(c)
    case c[0]
    when :or then c[1..-1].each { |x| r = holds(x); return r if r }; nil
    when :and then c[1..-1].all? { |x| holds(x) } ? [nil] : nil
    when :not then holds(c[1]) ? nil : [nil]
    when :gestalt then @facts.any? { |t, n| t == c[1] && n == c[2] } ? [nil] : nil
    when :language
      return nil unless @seen[c[1]]
      n = @counts[c[1]]; (n == 0 ? 0 >= c[2] : 100 * n >= c[2] * @total) ? [nil] : nil
    when :find
      r = @files.map { |f| m = c[1].match(f.path[/[^\/]*\z/]); m && [m[c[2]]] }.compact.map { |x| x[0] }
      r.empty? ? nil : r
    else
      min = c[0] == :keywords ? c[2] : c[0] == :java_import ? c[2] || 1 : c.last.is_a?(Integer) ? c.last : 1
      s = @sums[c] ||= @files.sum { |f| hits(c, f) }
      s >= min ? [nil] : nil
    end
  end
  def run(defs)
    left = defs
    loop do
      n = @facts.size; more = []
      left.each { |d| r = holds([:or, *d[2..-1]]); if r then @facts.concat(r.map { |x| [d[0], x || d[1]] }) else more << d end }
      left = more
      break if @facts.size == n
    end
    @facts
  end
end

# ---------------------------------------------------------------- definitions made here, through the language for definitions
module Mine
  def self.emit(c, o)
    case c[0]
    when :or, :and, :not then o.send("_#{c[0]}") { c[1..-1].each { |x| Mine.emit(x, self) } }
    when :gestalt then o.gestalt(c[1].to_sym, c[2])
    when :language then c[2] == 0 ? o.language(c[1].to_sym) : o.language(c[1].to_sym, :min_percent => c[2])
    when :find then c[2] == 0 ? o.find_filenames(c[1]) : o.find_filenames(c[1], :name_from_match => c[2])
    when :keywords
      a = c[3..-1]; a += [{:min => c[2]}] if c[2] != 1
      c[1] == :any ? o.keywords(*a) : c[1] == 'c' ? o.c_keywords(*a) : o.send(c[1] + "_keywords", *a)
    when :headers then o.c_headers(*c[1..-1])
    when :maven then c[1] == "plugin" ? o.maven_plugin(*c[2..-1]) : o.maven_dependency(*c[2..-1])
    when :csproj then o.csproj_import(*c[1..-1])
    else o.send(c[0], *c[1..-1].map { |x| x.is_a?(Integer) ? {:min => x} : x })
    end
  end
  def self.define(d) Gestalt.send("define_" + d[0], d[1]) { d[2..-1].each { |c| Mine.emit(c, self) } } end
end
W = [:keywords, :any, 1, 'WIDGET']
LEAVES = [W, [:keywords, :any, 2, 'WIDGET'], [:keywords, :any, 4, 'WIDGET', 'GADGET'], [:keywords, 'c', 1, 'WIDGET'], [:keywords, 'c', 3, 'WIDGET', 'g\w+'], [:keywords, 'ruby', 1, 'WIDGET'],
  [:keywords, 'java', 2, 'GADGET'], [:keywords, 'css', 1, 'WIDGET'], [:keywords, :any, 1, /gadget/i], [:headers, 'foo.h', 'sys/bar\.h'], [:filenames, '\.java$', 'lib/'], [:filenames, 'b\.cpp$'], [:filenames, '\.c$', 'jar$', 2], [:filenames, 'a', 3], [:java_import, /^org/, 2],
  [:find, /\.jar$/, 0], [:find, /^(\w+)-([\d.]+)\.jar$/, 1], [:find, /^(\w+)-(x)?.*\.jar$/, 2], [:java_import, /^org\.x\b/], [:java_import, /z$/], [:csharp_using, /^System\.X/], [:maven, 'dependency', 'g1'],
  [:maven, 'dependency', /^g/, 'a2'], [:maven, 'plugin', 'g1', 'a1'], [:csproj, /Silver/], [:csproj, 'a.b$c'], [:language, 'c', 0], [:language, 'c', 50], [:language, 'ruby', 30], [:language, 'python', 0],
  [:language, 'python', 1], [:language, 'html', 0], [:language, 'html', 40], [:language, 'java', 100]]
L6 = [W, [:keywords, 'java', 2, 'GADGET'], [:headers, 'foo.h', 'sys/bar\.h'], [:find, /\.jar$/, 0], [:language, 'c', 50], [:maven, 'dependency', 'g1']]
L10 = L6 + [[:filenames, '\.java$', 'lib/'], [:language, 'ruby', 30], [:java_import, /^org\.x\b/], [:csharp_using, /^System\.X/]]
TYPES = %w(platform tool kind)
def mine
  d = []; add = ->(*r) { d << [TYPES[d.size % 3], "m#{d.size}", *r] }
  LEAVES.each { |a| add[a]; add[[:not, a]]; add[[:or, a]]; add[[:and, a]]; add[[:not, [:not, a]]] }
  L10.each { |a| L10.each { |b|
    add[a, b]; add[[:and, a, b]]; add[[:or, a, b]]; add[[:and, a, [:not, b]]]; add[[:or, a, [:not, b]]]; add[[:not, [:and, a, b]]]; add[[:not, [:or, a, b]]] } }
  L6.each { |a| L6.each { |b| L6.each { |c| next if a == b || b == c
    add[[:and, [:or, a, b], c]]; add[[:or, [:and, a, b], c]]; add[a, [:and, b, c]]; add[[:and, a, b, c]] if THOROUGH } } }
  # facts that depend on facts: of the same or another type, defined before or after, in chains
  [["platform", "q0"], ["tool", "q0"], ["kind", "foo"], ["kind", "x"], ["platform", "ruby"], ["platform", "java"], ["tool", "eclipse"]].each { |t, n| add[[:gestalt, t, n]]; add[[:not, [:gestalt, t, n]]]; add[[:and, W, [:gestalt, t, n]]] }
  5.times { |i| d << ["platform", "back#{i}", [:gestalt, "platform", "back#{i + 1}"]] }
  d << ["platform", "back5", W]
  d << ["platform", "fwd0", W]; 5.times { |i| d << ["platform", "fwd#{i + 1}", [:and, [:gestalt, "platform", "fwd#{i}"], [:or, [:gestalt, "platform", "back#{5 - i}"], L6[i % 6]]]] }
  d << ["platform", "q0", L6[1]]; d << ["tool", "q0", L6[2]]; d << ["kind", "kind", [:find, /^(\w+)-([\d.]+)\.jar$/, 1]]
  d << ["platform", "late", [:and, [:gestalt, "platform", "later"], [:not, [:gestalt, "platform", "latest"]]]]; d << ["platform", "later", L6[2]]; d << ["platform", "latest", [:and, [:gestalt, "platform", "later"], L6[1]]]
  d << ["platform", "loop1", [:gestalt, "platform", "loop2"]]; d << ["platform", "loop2", [:gestalt, "platform", "loop1"]]
  d
end
POM = "<project xmlns=\"http://maven.apache.org/POM/4.0.0\">\n<dependencies>\n<dependency>\n<groupId>g1</groupId>\n<artifactId>a1</artifactId>\n</dependency>\n</dependencies>\n</project>\n"
def pool
  [file("a.c", "int WIDGET;\n"), file("src/b.cpp", "WIDGET x; WIDGET gy;\n#include <foo.h>\n"), file("c.c", "/* WIDGET */\n// #include <foo.h>\n"),
   file("J.java", "import org.x.y.Z;\nclass A { GADGET g; }\n"), file("K.java", "  import\torg.xx.z;\n// GADGET\n/* import org.x; */\nclass B { Object o = \"GADGET\"; }\n"),
   file("d.cs", "using System.Xml;\nusing System;\nclass C { int gadget; }\n"), file("e.rb", "WIDGET = 1\nputs WIDGET\n# x\nputs 1\nputs 2\n"), file("f.py", "# WIDGET\n\n"),
   file("sub/pom.xml", POM, [["dependency", "g1", "a1"]]), file("lib/foo-1.2.jar", nil), file("bar-2.jar", nil), file("w.html", "<html>\n<style type='text/css'>\n.WIDGET {}\n</style>\n</html>\n"),
   file("p.csproj", "<Project xmlns=\"http://schemas.microsoft.com/developer/msbuild/2003\">\n<Import Project=\"x\\Silver\\y\"/>\n</Project>\n", [], ["x\\Silver\\y"]), file("empty.c", ""), file("noext", "WIDGET\n"),
   file("h.h", "#include\t\"sys/bar.h\"\n#  include <foo.h>\n")]
end

# ---------------------------------------------------------------- judging
$bad = 0; STATS = Hash.new(0)
def told(g) g.map { |x| [x.type.to_s, x.name.to_s, x.count] }.sort end
def want(files, defs) World.new(files).run(defs).map { |t, n| [t, n, 1] }.sort end
def engine(files) e = Gestalt::GestaltEngine.new; files.each { |f| e.process(f.sf) }; e.calc_gestalts; e end
def diff_text(g, w) m = w - g; x = g - w; "missing #{m.first(4)}#{m.size > 4 ? "..." : ""}, unfounded #{x.first(4)}#{x.size > 4 ? "..." : ""}#{m.empty? && x.empty? ? " (other numbers of the same)" : ""}" end
def viol(key, c, msg) $bad += 1; puts "VIOL\tgestalt:#{key}\t#{c.gsub(/[\t\n]/, " ")}\t#{msg.gsub(/[\t\n]/, " ")[0, 400]}" if $bad < 20 end
def check(key, c, files, got, defs)
  w = want(files, defs); STATS["facts"] += w.size; STATS["evaluations"] += 1
  return if got == w
  f = (w - got + (got - w))[0] || ["", ""]
  viol(key + "-" + f[1].gsub(/[^A-Za-z0-9.+_-]/, "_"), c, "files #{files.map { |x| x.path + (x.contents.to_s.size < 90 ? x.contents.inspect : "") }.join(", ")}: #{diff_text(got, w)}")
end
def step(c, i)
  return if $replay ? $replay != c : i % $n != $shard
  status(c); STATS["cases"] += 1
  puts "SAMPLE\t#{c}" if STATS["cases"] == 40 && $shard < 3
  begin
    yield
  rescue StandardError, NoMemoryError, SystemStackError => e
    viol("raised", c, "#{e.class}: #{e.message[0, 200].inspect} #{e.backtrace.first.to_s[/[^\/]*\z/]}")
  end
end
def seqs(n, k) (1..k).flat_map { |l| (0...n).to_a.repeated_permutation(l).to_a } end
def only?(k) !$replay || $replay.start_with?(k + "|") end

# ---------------------------------------------------------------- samples of the conditions of the shipped definitions
# texts a pattern is made to match: all alternatives and optional parts, one or two repetitions
def texts(re)
  s = re.is_a?(Regexp) ? re.source : re; pos = 0
  alts = seq = nil
  atom = -> {
    c = s[pos]; pos += 1
    case c
    when "(" then r = alts.call; pos += 1; r
    when "\\" then d = s[pos]; pos += 1; {"b" => [""], "d" => ["3"], "w" => ["w"], "s" => [" "]}[d] || [d]
    when "[" then e = s.index("]", pos); set = s[pos...e]; pos = e + 1; set =~ /\A(.)-(.)\z/ ? [$1] : set.chars.first(2)
    when "." then ["."]
    when "^", "$" then [""]
    else [c]
    end }
  seq = -> {
    r = [""]
    while pos < s.size && s[pos] != "|" && s[pos] != ")"
      a = atom.call
      case s[pos]
      when "?" then pos += 1; a = [""] + a
      when "*" then pos += 1; a = [""] + a
      when "+" then pos += 1; a = a + [a[0] * 2]
      end
      r = r.product(a).map(&:join)
    end
    r }
  alts = -> { r = seq.call; while s[pos] == "|"; pos += 1; r += seq.call; end; r }
  r = alts.call.uniq; ok = Regexp.new(s, re.is_a?(Regexp) ? re.options : nil)
  good = r.select { |x| x =~ ok }; good.empty? ? r.first(1) : good
end
# texts near a matching one
def near(t)
  r = ["q" + t, t + "q", t[0..-2], t[1..-1], t + ".", "." + t, t.upcase, t.downcase, t.capitalize, t.gsub(".", "Z"), t.gsub("-", "_"), t.gsub("_", "-"), t.gsub(" ", "")]
  r += (0...t.size).map { |i| t[0...i] + t[i + 1..-1] } if THOROUGH
  r.uniq - [t, ""]
end
EXT = {"c" => ["a.c", "// "], "cpp" => ["a.cpp", "// "], "csharp" => ["a.cs", "// "], "perl" => ["a.pl", "# "], "java" => ["A.java", "// "], "ruby" => ["a.rb", "# "], "make" => ["Makefile", "# "], "assembler" => ["a.asm", "; "],
  "html" => ["a.html", nil], "php" => ["a.php", "// "], "python" => ["a.py", "# "], "xml" => ["a.xml", nil], "objective_c" => ["a.m", "// "], "visualbasic" => ["a.vb", "' "], "lua" => ["a.lua", "-- "]}
def source(l, text)
  case l
  when "php" then "<?php\n#{text}\n?>\n"
  when "objective_c" then "#import <x.h>\n@interface A\n@end\n#{text}\n"
  when "java" then "#{text}\nint z;\n"
  else text + "\n"
  end
end
def pom(g, a, kind = "dependency") "<project>\n<#{kind}>\n<groupId>#{g}</groupId>\n<artifactId>#{a}</artifactId>\n</#{kind}>\n</project>\n" end
def plain(x) x.is_a?(Regexp) ? texts(x) : [x] end
def conditions(c) case c[0] when :or, :and, :not then c[1..-1].flat_map { |x| conditions(x) } when :gestalt then [] else [c] end end
# files that meet a condition, and files that nearly do
def samples(c)
  yes = []; no = []
  case c[0]
  when :keywords
    ls = c[1] == :any ? %w(ruby html) : c[1] == "c" ? %w(c cpp) : [c[1]]
    c[3..-1].each { |w| texts(w).each { |t| ls.each { |l|
      n, com = EXT.fetch(l)
      c[2].downto(1) { |k| (k == c[2] ? yes : no) << file(n, source(l, ([t] * k).join("\n"))) }
      no << file(n, source(l, "#{t} #{t} #{t}")) if c[2] > 1
      near(t).each { |x| no << file(n, source(l, ([x] * c[2]).join("\n"))) }
      no << file(n, source(l, ([com + t] * c[2]).join("\n"))) if com } 
      (%w(lua c java php) - ls).each { |l| no << file(EXT[l][0], source(l, ([t] * c[2]).join("\n"))) } } }
  when :headers
    c[1..-1].each { |h| texts(h).each { |t|
      yes << file("a.c", "#include <#{t}>\n"); no << file("a.cpp", "#include \"#{t}\"\n"); no << file("a.h", "# include\t<#{t}>\n")
      no << file("a.c", "// #include <#{t}>\n"); no << file("a.m", source("objective_c", "#include <#{t}>")); no << file("a.c", "int x; /*\n#include <#{t}>\n*/\n"); no << file("a.c", "int a; // #include <#{t}>\n")
      near(t).each { |x| no << file("a.c", "#include <#{x}>\n") } } }
  when :filenames, :find
    (c[0] == :find ? [c[1]] : c[1..-1]).each { |r| texts(r).each { |t| yes << file(t, nil); no << file("d/" + t, nil); no << file("d/" + t + "/other", nil); near(t).each { |x| no << file(x, nil) } } }
  when :java_import, :csharp_using
    w, l = c[0] == :java_import ? ["import", "java"] : ["using", "csharp"]
    texts(c[1]).each { |t| n = EXT[l][0]; t = "a." + t if t.start_with?(".")
      t += "x" if t.end_with?(".")
      yes << file(n, source(l, "#{w} #{t};")); no << file(n, source(l, "#{w} #{t}.Y;")); no << file(n, source(l, "#{w} #{t}.*;")) if l == "java"
      no << file(n, source(l, "int x;\n  #{w}\t#{t};")); no << file(n, source(l, "// #{w} #{t};")); no << file(n, source(l, "/*\n#{w} #{t};\n*/")); no << file(n, source(l, "x#{w} #{t};")); no << file("a.lua", "#{w} #{t};\n")
      near(t).each { |x| no << file(n, source(l, "#{w} #{x};")) if x =~ /\A[A-Za-z]/ && x !~ /\s/ } }
  when :maven
    k = c[1]; o = k == "plugin" ? "dependency" : "plugin"
    plain(c[2]).each { |g| (c[3] ? plain(c[3]) : ["art"]).each { |a|
      yes << file("pom.xml", pom(g, a, k), [[k, g, a]]); no << file("other.xml", pom(g, a, k)); no << file("pom.xml", pom(g, a, o), [[o, g, a]]); no << file("pom.xml", pom(a, g, k), [[k, a, g]])
      near(g).each { |x| no << file("pom.xml", pom(x, a, k), [[k, x, a]]) }
      near(a).each { |x| no << file("pom.xml", pom(g, x, k), [[k, g, x]]) } if c[3] } }
  when :csproj
    plain(c[1]).each { |i| d = ->(x) { "<Project>\n<Import Project=\"#{x}\"/>\n</Project>\n" }
      yes << file("a.csproj", d[i], [], [i]); no << file("a.xml", d[i]); no << file("a.csproj", d["x\\" + i + "\\y"], [], ["x\\" + i + "\\y"]); near(i).each { |x| no << file("a.csproj", d[x], [], [x]) } }
  end
  [yes, no]
end
CONTEXT = {"none" => nil, "java" => ["Ctx.java", "class Ctx {\n" + "  int x;\n" * 30 + "}\n"], "php" => ["ctx.php", "<?php\n" + "$x = 1;\n" * 30 + "?>\n"], "ruby" => ["ctx.rb", "x = 1\n" * 30], "c" => ["ctx.c", "int x;\n" * 30]}
LANGS = {"visualbasic" => "v.vb", "ruby" => "v.rb", "java" => "V.java", "javascript" => "v.js", "actionscript" => "v.as", "mxml" => "v.mxml", "php" => "v.php", "python" => "v.py", "perl" => "v.pl", "sql" => "v.sql", "c" => "v.c", "cpp" => "v.cpp",
  "dmd" => "v.d", "fortranfixed" => "v.f", "fortranfree" => "v.f90", "haskell" => "v.hs", "csharp" => "v.cs", "autoconf" => "configure.in", "assembler" => "v.asm", "lua" => "v.lua"}
def code_of(l, n)
  case l
  when "php" then n == 0 ? "<?php # x\n" : "<?php\n" + "x = 1;\n" * (n - 1) + "?>\n"
  when "fortranfixed" then "      x = 1\n" * n
  when "mxml" then "<a>x</a>\n" * n
  else "x = 1\n" * n
  end
end

# ---------------------------------------------------------------- the cases
if only?("base") # the order of facts, and when they are equal
  b = %w(platform tool a).flat_map { |t| [t, t.to_sym] }.uniq.flat_map { |t| ["x", "y", "xy", ""].flat_map { |n| [1, 2, 10].map { |k| [t, n, k] } } }
  b.each_with_index { |x, i| step("base|#{i}", i) { b.each { |y|
    next if x[0].class != y[0].class
    p = Gestalt::Base.new(*x); q = Gestalt::Base.new(*y); STATS["evaluations"] += 1
    w = [x[0].to_s, -x[2], x[1]] <=> [y[0].to_s, -y[2], y[1]]
    viol("order", "base|#{i}", "#{x} <=> #{y} is #{p <=> q}, not #{w}") if ((p <=> q) <=> 0) != w
    viol("equality", "base|#{i}", "#{x} == #{y} is #{p == q}") if (p == q) != (x == y) } } }
end
P = pool
if only?("shipped") || only?("near") || only?("percent") || only?("twice") || only?("lists") || only?("program") || only?("maven") || only?("csproj") || only?("imports")
  leaves = SHIPPED.flat_map { |d| d[2..-1].flat_map { |c| conditions(c) } }.uniq
  yes = []; no = []
  leaves.each { |c| y, n = samples(c); yes += y; no += n }
  key = ->(f) { [f.path, f.contents] }
  yes = yes.uniq(&key); no = (no.uniq(&key)).reject { |f| yes.any? { |y| key[y] == key[f] } }
  ctx = CONTEXT.map { |k, v| [k, v && file(*v)] }.to_h
  STATS["sample_files"] = $shard == 0 ? yes.size + no.size : 0
  # every file alone and with some code of a language many definitions ask for
  all = yes + no
  if only?("near")
    all.each_with_index { |f, i| step("near|#{i}", i) { ctx.each { |k, x| fs = [f, x].compact; check("shipped", "near|#{i}", fs, told(engine(fs).gestalts), SHIPPED) } } }
  end
  # every two (and a third, java) of the files that meet a condition
  small = yes.uniq { |f| leaves.map { |c| c[0] == :language ? 0 : c[0] == :find ? (c[1] =~ f.path ? 1 : 0) : hits(c, f) } + f.parts.map(&:first) }
  STATS["sample_files_of_pairs"] = $shard == 0 ? small.size : 0
  if only?("shipped")
    small.each_with_index { |f, i| small.each_with_index { |g, j| next if !THOROUGH && j > i
      step("shipped|#{i},#{j}", i + j) { [nil, "java", "php"].each { |x| next if x == "php" && !THOROUGH; fs = [f, ctx[x || "none"], g].compact; check("shipped", "shipped|#{i},#{j}", fs, told(engine(fs).gestalts), SHIPPED) } } } }
  end
  # shares of the code: just below, at and just above what is asked for, with markup that does not count
  if only?("percent")
    i = 0
    asked = SHIPPED.flat_map { |d| d[2..-1].flat_map { |c| conditions(c) } }.select { |c| c[0] == :language && LANGS[c[1]] }.map { |c| [c[1], c[2]] }.uniq
    asked.each { |l, p| ([0, 1, 2, 99, 100] + [p - 1, p, p + 1]).uniq.select { |k| k >= 0 && k <= 100 }.each { |k|
      %w(lua c java).each { |o| next if o == l
        [0, 50].each { |m| step("percent|#{l},#{p},#{k},#{o},#{m}", i += 1) {
          fs = [file(LANGS[l], code_of(l, k)), file(EXT[o][0], "x = 1\n" * (100 - k)), m > 0 ? file("m.html", "<a>\n" * m) : nil].compact
          [fs, fs.reverse].each { |x| check("percent", "percent|#{l},#{p},#{k},#{o},#{m}", x, told(engine(x).gestalts), SHIPPED) } } } } } }
    # a share reached over two files of the language
    asked.each { |l, p| next if p < 2
      step("percent|two,#{l},#{p}", i += 1) { [p - 1, p].each { |k| a = k / 2
        fs = [file(LANGS[l], code_of(l, a)), file("ctx.lua", "x = 1\n" * (100 - k)), file("d/" + LANGS[l], code_of(l, k - a))]
        fs.permutation.each { |x| check("percent", "percent|two,#{l},#{p}", x, told(engine(x).gestalts), SHIPPED) } } } }
  end
  # two examinations at once, one examination asked twice, with more files in between, and files examined again
  if only?("twice")
    t = P + small.each_slice(9).map(&:first)
    t.each_with_index { |f, i| t.each_with_index { |g, j| step("twice|#{i},#{j}", i * 7 + j) { c = "twice|#{i},#{j}"
      a = Gestalt::GestaltEngine.new; b = Gestalt::GestaltEngine.new
      a.process(f.sf); b.process(g.sf); a.process(g.sf)
      a.calc_gestalts; check("twice", c, [f, g], told(a.gestalts), SHIPPED)
      b.calc_gestalts; check("twice", c, [g], told(b.gestalts), SHIPPED); check("twice", c, [f, g], told(a.gestalts), SHIPPED)
      a.calc_gestalts; check("twice", c, [f, g], told(a.gestalts), SHIPPED)
      check("twice", c, [f], told(f.sf.gestalts), SHIPPED); check("twice", c, [g], told(g.sf.gestalts), SHIPPED); check("twice", c, [f], told(f.sf.gestalts), SHIPPED) } } }
  end
  # lists of files on disk, in every way of asking, and the program
  Dir.chdir(ENV["C19_DIR"]) do
    q = P + small.each_slice(11).map(&:first).reject { |f| f.path =~ /\A\// }
    if only?("lists")
      q.each_with_index { |f, i| q.each_with_index { |g, j| next if i > 12 && j > 12 && !THOROUGH
        next if f.path == g.path && i != j
        next if f.path.start_with?(g.path + "/") || g.path.start_with?(f.path + "/")
        step("lists|#{i},#{j}", i * 7 + j) { c = "lists|#{i},#{j}"; d = "t#{$shard}x#{i}.#{j}"; fs = [f, g]
          make = ->(t) { fs.each { |x| FileUtils.mkdir_p(File.dirname(d + t + x.path)); File.binwrite(d + t + x.path, x.contents || "") } }
          on = ->(t, xs) { xs.map { |x| y = x.dup; y.path = d + t + x.path; y.hits = {}; y } }
          make["/"]; fs2 = on["/", i == j ? [f] : fs]
          l = SourceFileList.new; fs2.each { |x| l.add_file(x.path) }
          l.analyze_gestalt; check("lists", c, fs2, told(l.gestalts), SHIPPED)
          l.analyze(:gestalt); check("lists", c, fs2, told(l.gestalts), SHIPPED)
          l.analyze; check("lists", c, fs2, told(l.gestalts), SHIPPED)
          check("lists", c, fs2, told(Gestalt::Base.find_gestalts(l)), SHIPPED)
          e = Gestalt::GestaltEngine.new; e.process_source_files(l).calc_gestalts; check("lists", c, fs2, told(e.gestalts), SHIPPED)
          if (i != j || f) && fs2.none? { |x| x.path.split("/").any? { |y| y =~ /\A\./ } }
            l = SourceFileList.new(:paths => [d]); l.analyze(:gestalt); check("lists", c, fs2, told(l.gestalts), SHIPPED)
            l.analyze([:gestalt]); check("lists", c, fs2, told(l.gestalts), SHIPPED)
          end
          FileUtils.rm_r(File.join(ENV["C19_DIR"], d)) } } }
    end
    if only?("program")
      groups = q.reject { |f| f.path =~ /\A\.|\/\./ }.each_slice(THOROUGH ? 1 : 4).to_a
      groups.each_with_index { |fs, i| step("program|#{i}", i) { c = "program|#{i}"; d = "p#{i}"; fs = fs.uniq(&:path); fs = fs.reject { |x| fs.any? { |y| x.path.start_with?(y.path + "/") } }
        xs = fs.map { |x| FileUtils.mkdir_p(File.dirname(d + "/" + x.path)); File.binwrite(d + "/" + x.path, x.contents || ""); y = x.dup; y.path = d + "/" + x.path; y.hits = {}; y }
        w = World.new(xs).run(SHIPPED).map { |t, n| [t, -1, n] }.sort.map { |t, k, n| "#{t}\t       1\t#{n}" }
        [[d], xs.map(&:path)].each { |args|
          o = IO.popen(["ruby", "-I", SO, BASE + "/ruby/gestalt.rb", *args, :err => File::NULL], "rb", &:read).lines.map(&:chomp)
          STATS["evaluations"] += 1
          viol("program", c, "gestalt.rb #{args.join(" ")} printed #{o} instead of #{w}") if o[0] != "Examining #{xs.size} file(s) for gestalts." || o[1..-1] != w }
        FileUtils.rm_r(File.join(ENV["C19_DIR"], d)) } }
    end
  end
end
# build files: what they depend on, by small trees of elements
if only?("maven")
  id = ->(g, a) { "<groupId>#{g}</groupId>\n<artifactId>#{a}</artifactId>\n" }
  B = [["<dependency>\n" + id["g1", "a1"] + "</dependency>\n", [["dependency", "g1", "a1"]]],
    ["<dependency>\n<artifactId>a2</artifactId>\n<version>1</version>\n<groupId>\n  g1 </groupId>\n</dependency>\n", [["dependency", "g1", "a2"]]],
    ["<plugin>\n" + id["g1", "a1"] + "</plugin>\n", [["plugin", "g1", "a1"]]],
    ["<dependency>\n" + id["g1", "a1"] + "<exclusions>\n<exclusion>\n" + id["g9", "a2"] + "</exclusion>\n</exclusions>\n</dependency>\n", [["dependency", "g1", "a1"]]],
    ["<dependency>\n<exclusions>\n<exclusion>\n" + id["g9", "a2"] + "</exclusion>\n</exclusions>\n" + id["g1", "a2"] + "</dependency>\n", [["dependency", "g1", "a2"]]],
    ["<plugin>\n" + id["g1", "a1"] + "<dependencies>\n<dependency>\n" + id["g2", "a2"] + "</dependency>\n</dependencies>\n</plugin>\n", [["dependency", "g2", "a2"], ["plugin", "g1", "a1"]]],
    ["<plugin>\n<dependencies>\n<dependency>\n" + id["g1", "a1"] + "</dependency>\n</dependencies>\n" + id["g2", "a2"] + "</plugin>\n", [["dependency", "g1", "a1"], ["plugin", "g2", "a2"]]],
    ["<dependency>\n<groupId/>\n<artifactId>a1</artifactId>\n</dependency>\n", [["dependency", "", "a1"]]],
    ["<dependency>\n<groupId>g1</groupId>\n</dependency>\n", []], ["<dependency>\n<artifactId>a1</artifactId>\n</dependency>\n", []],
    ["<parent>\n" + id["g1", "a1"] + "</parent>\n", []], [id["g1", "a1"], []], ["<dependency/>\n", []], ["<!--\n<dependency>\n" + id["g1", "a1"] + "</dependency>\n-->\n", []],
    ["<dependency>\n" + id["g1${x}", "${y}a2"] + "</dependency>\n", [["dependency", "g1", "a2"]]], ["<dependency>\n<groupId>g<!-- x -->1</groupId>\n<artifactId>a1</artifactId>\n</dependency>\n", [["dependency", "g1", "a1"]]],
    ["<name>g1</name>\n", []]]
  R = [["<project>\n", "</project>\n", true], ["<project xmlns=\"http://maven.apache.org/POM/4.0.0\">\n<dependencies>\n", "</dependencies>\n</project>\n", true], ["<project xmlns=\"urn:x\">\n", "</project>\n", false],
    ["<x>\n", "</x>\n", false], ["<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<project>\n<build>\n", "</build>\n</project>\n", true]]
  mine_ = LEAVES.select { |c| c[0] == :maven }.each_with_index.map { |c, i| ["platform", "mv#{i}", c] }
end
if only?("csproj") || only?("maven")
  mine_c = (LEAVES.select { |c| c[0] == :csproj } + [[:csproj, /.*/]]).each_with_index.map { |c, i| ["platform", "cp#{i}", c] }
end
X = LEAVES.select { |c| [:headers, :java_import, :csharp_using, :keywords].include?(c[0]) }.each_with_index.map { |c, i| ["kind", "im#{i}", c] }
if %w(maven csproj imports).any? { |k| only?(k) }
  extra = (mine_ || []) + (mine_c || []) + X
  extra.each { |d| Mine.define(d) }; D = SHIPPED + extra
  i = 0
  if only?("maven")
    (0...B.size).to_a.repeated_permutation(2).each { |a, b| R.each_with_index { |r, k| step("maven|#{a},#{b},#{k}", i += 1) {
      f = file(k.odd? ? "x/pom.xml" : "pom.xml", r[0] + B[a][0] + (a == b ? "" : B[b][0]) + r[1], r[2] ? B[a][1] + (a == b ? [] : B[b][1]) : [])
      check("maven", "maven|#{a},#{b},#{k}", [f], told(engine([f]).gestalts), D) } } }
    # what is not well-formed says nothing, and stops nothing
    ["<project>\n<x></y>\n</project>\n", "<project>\n", "<project", "x\n", "", "<?xml version='1.0' encoding='foo'?>\n<project>\n</project>\n", "<project>&#xffffffff;</project>\n", "<project><groupId>&#x110000;</groupId></project>\n", "<project><groupId/></project>\n",
     "<project>\n<artifactId></artifactId></project>\n", "<?xml version='1.0' encoding='UTF-16'?>\n<project>\n</project>\n", "<project>\xff\xfe</project>\n", "</project>\n", "<!DOCTYPE p [<!ENTITY a \"b\">]>\n<project>&a;&b;</project>\n", "<project><![CDATA[<dependency>]]></project>\n"].each_with_index { |t, k|
      %w(pom.xml a.csproj).each { |n| step("maven|bad#{k}#{n}", i += 1) { f = file(n, t.b); fs = [f, P[3]]; check("malformed", "maven|bad#{k}#{n}", fs, told(engine(fs).gestalts), D) } } }
  end
  if only?("csproj")
    ns = "http://schemas.microsoft.com/developer/msbuild/2003"
    imps = [["<Import Project=\"x\\Silver\\y\"/>\n", ["x\\Silver\\y"]], ["<Import Project=\"a.b$c\" Condition=\"x\"/>\n", ["a.b$c"]], ["<Import/>\n", []], ["<!-- <Import Project=\"Silver\"/> -->\n", []], ["<Other Project=\"Silver\"/>\n", []], ["<Import>Silver</Import>\n", []], ["<Import Project=\"zaXb$cz\"/>\n", ["zaXb$cz"]]]
    heads = [["<Project>\n", true], ["<Project xmlns=\"#{ns}\" ToolsVersion=\"4\">\n", true], ["<Project xmlns=\"urn:x\">\n", false], ["<project>\n", false]]
    imps.each_with_index { |x, a| imps.each_with_index { |y, b| heads.each_with_index { |h, k| %w(a.csproj a.csproj.xml).each_with_index { |n, m| step("csproj|#{a},#{b},#{k},#{m}", i += 1) {
      e = h[0][1..7].strip[/\w+/]; f = file(n, h[0] + x[0] + y[0] + "</#{e}>\n", [], h[1] && m == 0 ? x[1] + y[1] : [])
      check("csproj", "csproj|#{a},#{b},#{k},#{m}", [f], told(engine([f]).gestalts), D) } } } } }
  end
  if only?("imports") # statements by their spelling
    pre = ["", " ", "\t ", "int x;\n", "x ", "// ", "/* */ ", "\n\n"]; post = ["", ".*", ".A", "x", "2", "-y"]
    pre.each_with_index { |a, k| post.each_with_index { |b, m| [" ", "\t", "  ", ""].each_with_index { |s, o| step("imports|#{k},#{m},#{o}", i += 1) {
      fs = [file("A.java", "#{a}import#{s}org.x#{b};\nint z;\n"), file("a.cs", "#{a}using#{s}System.X#{b};\nint z;\n"), file("a.cs", "#{a}using#{s}System.X#{b} ;\n"), file("a.cs", "#{a}using#{s}System.X#{b}\n"), file("B.java", "#{a}import#{s}org.z;#{a}import org.x;\n")]
      fs.each { |f| check("imports", "imports|#{k},#{m},#{o}", [f], told(engine([f]).gestalts), D) } } } } }
    ["#include", "# include", "#\tinclude", "include", "#INCLUDE", "#import", "#includes"].each_with_index { |a, k| ["", " ", "\t", "  "].each_with_index { |s, m| [%w(< >), %w(" "), %w(' '), %w(< "), ["", ""]].each_with_index { |q, o| step("imports|h#{k},#{m},#{o}", i += 1) {
      %w(foo.h FOO.H foo_h xfoo.h foo.hh sys/bar.h sysbar.h).each { |h| %w(a.c a.cpp a.h a.m a.java).each { |n| f = file(n, "#{a}#{s}#{q[0]}#{h}#{q[1]}\nint z;\n"); check("imports", "imports|h#{k},#{m},#{o}", [f], told(engine([f]).gestalts), D) } } } } } }
    words = ["WIDGET", "WIDGETS", "WID GET", "widget", "GADGET WIDGET GADGET", "gadget", "WIDGETWIDGET", "gx gy gz", "\xe9WIDGET\xff"]
    words.each_with_index { |a, k| words.each_with_index { |b, m| step("imports|k#{k},#{m}", i += 1) { %w(a.c a.cpp A.java a.rb a.lua noext a.css).each { |n| f = file(n, "#{a.b}\n#{b.b}\n".b); check("keywords", "imports|k#{k},#{m}", [f], told(engine([f]).gestalts), D) } } } }
  end
end
# definitions of all shapes, over all sequences of files
if only?("rules")
  made = mine; made.each { |d| Mine.define(d) }; D2 = defined?(D) ? D + made : SHIPPED + made
  STATS["definitions"] = $shard == 0 ? D2.size : 0
  step("rules|", 0) { check("rules", "rules|", [], told(engine([]).gestalts), D2) }
  seqs(P.size, THOROUGH ? 4 : 2).each_with_index { |q, i| c = "rules|" + q.join(","); step(c, i) { fs = q.map { |x| P[x] }; check("rules", c, fs, told(engine(fs).gestalts), D2) } }
  if !THOROUGH # all orders of every three files
    (0...P.size).to_a.permutation(3).each_with_index { |q, i| c = "rules|" + q.join(","); step(c, i) { fs = q.map { |x| P[x] }; check("rules", c, fs, told(engine(fs).gestalts), D2) } }
  end
end
STATS.each { |k, v| puts "STAT\t#{k}\t#{v}" }
puts "DONE"; STDOUT.flush
exit!($replay && $bad > 0 ? 1 : 0)
