# C18: the enumerated cases of h/c18.cpp, through the Ruby objects. Reads lines: case TAB expected results.
$shard, $n = ARGV[0] == "replay" ? [nil, nil] : [ARGV[0].to_i, ARGV[1].to_i]
$replay = ARGV[0] == "replay" ? ARGV[1] : nil
tier, exe, $dir, base = ARGV[2..5]
require 'ohcount.so'
require base + '/ruby/ohcount.rb'
include Ohcount
$status = ENV["H_STATUS"] && File.open(ENV["H_STATUS"], "w+b")
def status(s) if $status then $status.pos = 0; $status.write(s.b + "\0"); $status.flush end end
ESC = {"\n" => "\\n", "\r" => "\\r", "\t" => "\\t", "\f" => "\\f", "\\" => "\\\\"}
def esc(s) s.b.gsub(/[\\\x00-\x1f\x7f-\xff]/n) { |c| ESC[c] || "\\x%02x" % c.ord } end
def unesc(s) s.b.gsub(/\\(n|r|t|f|\\|x..)/n) { |m| {"\\n" => "\n", "\\r" => "\r", "\\t" => "\t", "\\f" => "\f", "\\\\" => "\\"}[m] || m[2, 2].hex.chr } end
def s(x) x.nil? ? "~" : "'".b + x.b end
# strings handed over are changed afterwards: the objects must have their own
class Gift
  def initialize() @given = [] end
  def str(x) y = x.dup; @given << y; y end
  def spoil() @given.each { |x| x.is_a?(Array) ? x.clear : x.replace("?" * 60) }; @given.clear end
  def arr(x) y = x.map { |z| str(z) }; @given.unshift(y); y end
end
def make(spec)
  name, con, loc, fn = spec; g = Gift.new; o = {}
  o[:contents] = con == "~" ? nil : g.str(con[1..-1])
  o[:file_location] = loc == "~" ? nil : g.str($dir + "/" + loc[1..-1])
  o[:filenames] = fn == "~" ? nil : g.arr(fn[1..-1].split(","))
  o.delete_if { |k, v| v.nil? } if $count.even?
  f = o.empty? ? SourceFile.new(g.str(name)) : SourceFile.new(g.str(name), o)
  g.spoil; f
end
def breakdowns(l) l.map { |b| "#{s b.name}/#{s b.code}/#{s b.comments}/#{b.code_count}/#{b.comments_count}/#{b.blanks_count};" }.join end
def locs(l) l.map { |x| "#{s x.language}/#{x.code}/#{x.comments}/#{x.blanks}/#{x.filecount}/#{x.total};" }.join end
def deltas(l) l.map { |d| "#{s d.language}/#{d.code_added}/#{d.code_removed}/#{d.comments_added}/#{d.comments_removed}/#{d.blanks_added}/#{d.blanks_removed};" }.join end
def other() SourceFile.new("o.c", :contents => "int a;\n// y\nint b;\n\n") end
def each_of(f) r = []; f.each { |x| r << x }; r end
# what is read, and how it is written down (perhaps much later). Nothing of a file may be captured here but what was read.
def ask(f, o)
  v = case o
  when "C" then f.contents
  when "P" then f.polyglot
  when "N" then f.contents_size
  when "B" then f.language_breakdowns
  when "b" then %w(c html nothing).map { |n| f.language_breakdown(n == "c" ? :c : n) }
  when "A" then f.languages
  when "I" then f.licenses
  when "O" then f.loc_list
  when "F" then [f.filenames, each_of(f)]
  when "M" then [f.filepath, f.filename, f.ext, f.file_location]
  when "c" then g = Gift.new; f.set_contents(g.str("// set\nint z;\n\n")); g.spoil; nil
  when "d" then g = Gift.new; f.file_location = g.str($dir + "/two.c"); g.spoil; nil
  when "f" then g = Gift.new; f.filenames = g.arr(%w(k.m Makefile k.h)); g.spoil; nil
  when "D" then f.diff(other).loc_deltas
  when "e" then other.diff(f)
  end
  [o, v]
end
def strs(l) l.map { |x| s(x) + ";" }.join end
def write_down(o, v)
  case o
  when "C", "P" then s v
  when "N", "z", "K", "Y" then v.to_s
  when "B" then breakdowns v
  when "b" then v.map { |b| b ? "#{s b.code}/#{b.comments_count}" : "~" }.join(",")
  when "A", "I", "le" then strs v
  when "O" then locs v
  when "F" then strs(v[0]) + "|" + strs(v[1])
  when "M" then v.map { |x| s x }.join(";")
  when "D", "e" then deltas v
  when "ls" then v.map { |f| "#{s f.filepath}=#{s f.polyglot};" }.join
  when "la" then r = []; i = v.head; while i; r << i.loc; i = i.next; end; locs(r) + "#{v.total},#{v.code},#{v.comments},#{v.blanks},#{v.filecount}"
  else ""
  end
end
PATHS = {"1" => "/T", "2" => "/two.c", "3" => "/gone.py", "4" => "/T/sub", "5" => "/gone"}
def lask(l, o)
  case o
  when "z" then [o, l.size]
  when "e" then v = []; l.each { |x| v << x }; ["le", v]
  when "s" then v = []; l.each_source_file { |x| v << x }; ["ls", v]
  when "a" then ["la", l.analyze_languages]
  when "1", "4", "5" then g = Gift.new; l.add_directory(g.str($dir + PATHS[o])); g.spoil; [o, nil]
  when "2", "3" then g = Gift.new; l.add_file(g.str($dir + PATHS[o])); g.spoil; [o, nil]
  end
end
def mklist(ctor)
  g = Gift.new; o = {}; d, f = ctor.chars.partition { |c| "145".include?(c) }
  o[:paths] = g.arr(d.map { |x| $dir + PATHS[x] }) unless d.empty?; o[:files] = g.arr(f.map { |x| $dir + PATHS[x] }) unless f.empty?
  l = o.empty? && $count.even? ? SourceFileList.new : SourceFileList.new(o); g.spoil; l
end
def read(c) # the results of a case
  kind, rest = c.split("|", 2)
  case kind
  when "K" then n = unesc(rest); l = Ohcount.ohcount_hash_language_from_name(n); [["K", l ? "#{s l.name};#{s l.nice_name};#{l.category}" : "~"]]
  when "Y" then b = Detector.binary_filename?(rest); [["Y", b ? "1" : "0"]]
  when "L-", "Lg", "Lh" then ctor, ops = rest.split("|", -1); l = mklist(ctor); GC.start if kind == "Lg"; ops.chars.map { |o| r = lask(l, o); GC.start if kind == "Lg"; kind == "Lh" ? r : ["-", write_down(*r)] }
  else
    f = rest.split("|", -1); f[1] = unesc(f[1]); o = make(f[0, 4]); GC.start if kind == "g"
    f[4].chars.map { |x| r = ask(o, x); GC.start if kind == "g"; kind == "h" ? r : ["-", write_down(*r)] }
  end
end
def written(kind, l) r = l.map { |o, v| o == "-" ? v : write_down(o, v) }; r = r.join("\n") + (kind =~ /[KY]/ ? "" : "\n"); esc(r.b.gsub($dir.b, "$")) end
def judge(c, exp, l)
  got = written(c[/\A[^|]*/], l)
  if got != exp then $bad += 1; k = c[/\A[^|]*/] + "-" + (c[/[^|]*\z/]); puts "VIOL\truby:#{k.gsub(/[^A-Za-z0-9-]/, '_')[0, 40]}\t#{c.gsub(/[\t\n]/, ' ')}\tRuby reports #{got[0, 300]} but the library #{exp[0, 300]}" if $bad < 20; end
rescue StandardError, NoMemoryError, SystemStackError => e
  fail_(c, e)
end
def fail_(c, e) $bad += 1; puts "VIOL\truby:raised\t#{c}\t#{e.class}: #{e.message[0, 200].inspect}" if $bad < 20 end
$bad = 0; $count = 0; stats = Hash.new(0); held = []
flush = -> { 3.times { GC.start }; held.each { |c, exp, l| status(c); judge(c, exp, l) }; held.clear }
cmd = [exe, ($shard || 0).to_s, ($n || 1).to_s, tier, $dir, base]
wanted = $replay; ENV["C18_ONLY"] = wanted if wanted
Dir.chdir($dir)
IO.popen(cmd, "rb") do |io|
  io.each_line do |line|
    c, exp = line.chomp.split("\t", -1); $count += 1
    next if wanted && wanted != c
    status(c); kind = c[/\A[^|]*/]; stats["cases"] += 1; stats["steps"] += c[/[^|]*\z/].size; stats["with_gc"] += 1 if kind =~ /g|h/
    puts "SAMPLE\t#{c}" if stats["cases"] == 500 && $shard == 0
    begin
      l = read(c)
    rescue StandardError, NoMemoryError, SystemStackError => e
      fail_(c, e); next
    end
    if kind =~ /h/ then held << [c, exp, l]; 40.times { SourceFile.new("spare.c", :contents => "int spare;\n").language_breakdowns } if wanted; flush.call if held.size >= 60 else judge(c, exp, l) end
  end
end
flush.call
if $?.exitstatus != 0 then STDERR.puts "the library's side failed"; exit 5 end
stats.each { |k, v| puts "STAT\t#{k}\t#{v}" }
puts "DONE"; STDOUT.flush
exit!($replay && $bad > 0 ? 1 : 0)
