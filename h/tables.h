// Written by tools/tables.py. Values: a language, "?rule" for ambiguous keys, "!" for binary files.
#pragma once
namespace TB {
static const char *const EXT[][2] = {{"4th", "forth"}, {"C", "cpp"}, {"H", "cpp"}, {"ada", "ada"}, {"adb", "ada"}, {"ads", "ada"}, {"aiff", "!"}, {"as", "actionscript"}, {"as8", "assembler"}, {"ascx", "?aspx"}, {"asm", "assembler"}, {"aspx", "?aspx"}, {"asx", "?asx"}, {"au", "!"}, {"aug", "augeas"}, {"avi", "!"}, {"awk", "awk"}, {"b", "?b"}, {"bas", "?basic"}, {"bat", "bat"}, {"bf", "brainfuck"}, {"bfpp", "bfpp"}, {"bi", "?basic"}, {"bmp", "!"}, {"bmx", "blitzmax"}, {"boo", "boo"}, {"c", "c"}, {"c++", "cpp"}, {"cache", "!"}, {"cc", "cpp"}, {"chai", "chaiscript"}, {"clj", "clojure"}, {"cls", "tex"}, {"cmake", "cmake"}, {"coffee", "coffeescript"}, {"com", "dcl"}, {"cpp", "cpp"}, {"cr", "crystal"}, {"cs", "?cs"}, {"csproj", "xml"}, {"css", "css"}, {"ctp", "php"}, {"cu", "cuda"}, {"cxx", "cpp"}, {"d", "dmd"}, {"dart", "dart"}, {"dat", "?dat"}, {"def", "?def"}, {"di", "dmd"}, {"doc", "!"}, {"dtx", "tex_dtx"}, {"dylan", "dylan"}, {"e", "eiffel"}, {"ebuild", "ebuild"}, {"ec", "ec"}, {"eclass", "ebuild"}, {"eh", "ec"}, {"el", "emacslisp"}, {"elm", "elm"}, {"erl", "erlang"}, {"exheres-0", "exheres"}, {"exlib", "exheres"}, {"f", "?fortran"}, {"f03", "?fortran"}, {"f08", "?fortran"}, {"f77", "?fortran"}, {"f90", "?fortran"}, {"f95", "?fortran"}, {"factor", "factor"}, {"fr", "forth"}, {"frag", "glsl"}, {"frt", "forth"}, {"for", "?fortran"}, {"forth", "forth"}, {"fpp", "?fortran"}, {"frm", "visualbasic"}, {"frx", "visualbasic"}, {"fs", "?fs"}, {"fth", "forth"}, {"ftn", "?fortran"}, {"gemspec", "ruby"}, {"gif", "!"}, {"glsl", "glsl"}, {"go", "golang"}, {"groovy", "groovy"}, {"grace", "grace"}, {"grc", "grace"}, {"gs", "genie"}, {"gz", "!"}, {"h", "?h"}, {"h++", "cpp"}, {"haml", "haml"}, {"hh", "cpp"}, {"hpp", "cpp"}, {"hrl", "erlang"}, {"hs", "haskell"}, {"htm", "html"}, {"html", "html"}, {"hx", "haxe"}, {"hxx", "cpp"}, {"i3", "modula3"}, {"icns", "!"}, {"in", "?in"}, {"inc", "?inc"}, {"j", "objective_j"}, {"jar", "!"}, {"java", "java"}, {"jpeg", "!"}, {"jpg", "!"}, {"js", "javascript"}, {"jl", "julia"}, {"jsp", "jsp"}, {"kdebuild-1", "ebuild"}, {"kt", "kotlin"}, {"lc", "livecode"}, {"latex", "tex"}, {"lisp", "lisp"}, {"lsp", "lisp"}, {"ltx", "tex"}, {"lgt", "logtalk"}, {"lua", "lua"}, {"m", "?m"}, {"m3", "modula3"}, {"m4", "autoconf"}, {"m4a", "!"}, {"mf", "metafont"}, {"mk", "make"}, {"ml", "ocaml"}, {"ml4", "ocaml"}, {"mli", "ocaml"}, {"mm", "objective_c"}, {"mo", "modelica"}, {"mod", "?mod"}, {"mov", "!"}, {"mp", "metapost_with_tex"}, {"mp3", "!"}, {"mpg", "!"}, {"mt", "mathematica"}, {"mustache", "html"}, {"mxml", "mxml"}, {"nix", "nix"}, {"nse", "lua"}, {"nsi", "nsis"}, {"nsh", "nsis"}, {"ob2", "oberon"}, {"obn", "oberon"}, {"ogg", "!"}, {"p6", "perl"}, {"p8", "lua"}, {"pas", "pascal"}, {"perl", "perl"}, {"pdf", "!"}, {"ph", "perl"}, {"php", "php"}, {"php3", "php"}, {"php4", "php"}, {"php5", "php"}, {"pike", "pike"}, {"pl", "?pl"}, {"pm", "perl"}, {"pmc", "c"}, {"pmod", "pike"}, {"png", "!"}, {"pnt", "!"}, {"pod", "perl"}, {"pp", "?pp"}, {"ppt", "!"}, {"pro", "?pro"}, {"ps", "postscript"}, {"ps1", "powershell"}, {"py", "python"}, {"qml", "qml"}, {"qt", "!"}, {"r", "?r"}, {"r3", "rebol"}, {"ra", "!"}, {"rb", "ruby"}, {"rbw", "ruby"}, {"reb", "rebol"}, {"rebol", "rebol"}, {"rex", "rexx"}, {"rexx", "rexx"}, {"rhtml", "rhtml"}, {"rkt", "racket"}, {"rktd", "racket"}, {"rktl", "racket"}, {"rs", "?rs"}, {"ru", "ruby"}, {"run", "ampl"}, {"s", "assembler"}, {"sc", "scheme"}, {"scala", "scala"}, {"sce", "scilab"}, {"sci", "scilab"}, {"scm", "scheme"}, {"sh", "shell"}, {"sld", "scheme"}, {"sls", "scheme"}, {"sps", "scheme"}, {"sql", "sql"}, {"ss", "scheme"}, {"st", "?st"}, {"str", "stratego"}, {"sty", "tex"}, {"svg", "!"}, {"svgz", "!"}, {"svn", "!"}, {"swf", "!"}, {"swift", "swift"}, {"t", "perl"}, {"tac", "python"}, {"tap", "python"}, {"tar", "!"}, {"tcl", "tcl"}, {"tex", "tex"}, {"tgz", "!"}, {"tif", "!"}, {"tiff", "!"}, {"tpl", "html"}, {"uc", "unrealscript"}, {"umple", "umple"}, {"ts", "typescript"}, {"tsx", "typescript"}, {"vala", "vala"}, {"vapi", "vala"}, {"v", "coq"}, {"vb", "visualbasic"}, {"vba", "visualbasic"}, {"vbs", "visualbasic"}, {"vert", "glsl"}, {"vhd", "vhdl"}, {"vhdl", "vhdl"}, {"vim", "vim"}, {"wav", "!"}, {"wl", "mathematica"}, {"wlt", "mathematica"}, {"xaml", "xaml"}, {"xhtml", "html"}, {"xls", "!"}, {"xlw", "!"}, {"xml", "xml"}, {"xs", "c"}, {"xsd", "xmlschema"}, {"xsl", "xslt"}, {"z80", "assembler"}, {"zip", "!"}, {"zpt", "html"}};
static const char *const FILES[][2] = {{"CMakeLists.txt", "cmake"}, {"Jamfile", "jam"}, {"Jamrules", "jam"}, {"GNUmakefile", "make"}, {"Makefile", "make"}, {"Makefile.am", "automake"}, {"configure", "autoconf"}, {"configure.ac", "autoconf"}, {"configure.in", "autoconf"}, {"init.pp", "puppet"}, {"makefile", "make"}, {"Rakefile", "ruby"}, {"rakefile", "ruby"}, {"Gemfile", "ruby"}, {"Vagrantfile", "ruby"}, {"PKGBUILD", "shell"}, {"script.utf8", "livecode"}};
static const char *const LANGS[][4] = {{"actionscript", "actionscript", "ActionScript", "0"}, {"ada", "ada", "Ada", "0"}, {"ampl", "ampl", "AMPL", "0"}, {"assembler", "assembler", "Assembler", "0"}, {"augeas", "augeas", "Augeas", "0"}, {"autoconf", "autoconf", "Autoconf", "2"}, {"automake", "automake", "Automake", "2"}, {"awk", "awk", "AWK", "0"}, {"bat", "bat", "DOS batch script", "0"}, {"bash", "shell", "shell script", "0"}, {"blitzmax", "blitzmax", "BlitzMax", "0"}, {"boo", "boo", "Boo", "0"}, {"brainfuck", "brainfuck", "Brainfuck", "0"}, {"bfpp", "bfpp", "Brainfuck++", "0"}, {"c", "c", "C", "0"}, {"chaiscript", "chaiscript", "ChaiScript", "0"}, {"classic_basic", "classic_basic", "Classic Basic", "0"}, {"clearsilver", "clearsilver", "ClearSilver", "0"}, {"clearsilver_template", "clearsilver_template", "ClearSilver", "0"}, {"clojure", "clojure", "Clojure", "0"}, {"cmake", "cmake", "Cmake script", "2"}, {"coffeescript", "coffeescript", "CoffeeScript", "0"}, {"coq", "coq", "Coq", "0"}, {"cpp", "cpp", "C++", "0"}, {"crystal", "crystal", "Crystal", "0"}, {"cs_aspx", "cs_aspx", "", "0"}, {"csharp", "csharp", "C#", "0"}, {"css", "css", "CSS", "1"}, {"cuda", "cuda", "CUDA", "0"}, {"dart", "dart", "Dart", "0"}, {"dcl", "dcl", "DCL", "0"}, {"dmd", "dmd", "D", "0"}, {"dtx", "tex_dtx", "DTX for TeX/LaTeX", "1"}, {"dylan", "dylan", "Dylan", "0"}, {"ebuild", "ebuild", "Ebuild", "0"}, {"ec", "ec", "eC", "0"}, {"eiffel", "eiffel", "Eiffel", "0"}, {"elm", "elm", "Elm", "0"}, {"emacslisp", "emacslisp", "Emacs lisp", "0"}, {"erlang", "erlang", "Erlang", "0"}, {"exheres", "exheres", "Exheres", "0"}, {"factor", "factor", "Factor", "0"}, {"forth", "forth", "Forth", "0"}, {"fortranfixed", "fortranfixed", "Fortan (Fixed-format)", "0"}, {"fortranfree", "fortranfree", "Fortan (Free-format)", "0"}, {"fsharp", "fsharp", "F#", "0"}, {"genie", "genie", "Genie", "0"}, {"glsl", "glsl", "OpenGL Shading Language", "0"}, {"golang", "golang", "Golang", "0"}, {"grace", "grace", "Grace", "0"}, {"groovy", "groovy", "Groovy", "0"}, {"haml", "haml", "Haml", "1"}, {"haskell", "haskell", "Haskell", "0"}, {"haxe", "haxe", "HaXe", "0"}, {"html", "html", "HTML", "1"}, {"idl_pvwave", "idl_pvwave", "IDL/PV-WAVE/GDL", "0"}, {"jam", "jam", "Jam", "2"}, {"java", "java", "Java", "0"}, {"javascript", "javascript", "JavaScript", "0"}, {"julia", "julia", "Julia", "0"}, {"jsp", "jsp", "", "0"}, {"kotlin", "kotlin", "Kotlin", "0"}, {"limbo", "limbo", "Limbo", "0"}, {"lisp", "lisp", "Lisp", "0"}, {"livecode", "livecode", "LiveCode", "0"}, {"logtalk", "logtalk", "Logtalk", "0"}, {"lua", "lua", "Lua", "0"}, {"make", "make", "Make", "2"}, {"mathematica", "mathematica", "Mathematica", "0"}, {"matlab", "matlab", "Matlab", "0"}, {"metafont", "metafont", "MetaFont", "1"}, {"metapost", "metapost", "MetaPost", "1"}, {"metapost_with_tex", "metapost_with_tex", "", "0"}, {"modelica", "modelica", "Modelica", "0"}, {"modula2", "modula2", "Modula-2", "0"}, {"modula3", "modula3", "Modula-3", "0"}, {"mxml", "mxml", "MXML", "1"}, {"nix", "nix", "Nix", "0"}, {"nsis", "nsis", "NSIS", "0"}, {"oberon", "oberon", "Oberon", "0"}, {"objective_c", "objective_c", "Objective-C", "0"}, {"objective_j", "objective_j", "Objective-J", "0"}, {"ocaml", "ocaml", "Objective Caml", "0"}, {"octave", "octave", "Octave", "0"}, {"pascal", "pascal", "Pascal", "0"}, {"perl", "perl", "Perl", "0"}, {"php", "php", "PHP", "0"}, {"pike", "pike", "Pike", "0"}, {"postscript", "postscript", "PostScript", "1"}, {"powershell", "powershell", "PowerShell", "0"}, {"prolog", "prolog", "Prolog", "0"}, {"puppet", "puppet", "Puppet", "0"}, {"python", "python", "Python", "0"}, {"qml", "qml", "QML", "1"}, {"r", "r", "R", "0"}, {"racket", "racket", "Racket", "0"}, {"rebol", "rebol", "REBOL", "0"}, {"rexx", "rexx", "rexx", "0"}, {"rhtml", "rhtml", "", "0"}, {"ruby", "ruby", "Ruby", "0"}, {"rust", "rust", "Rust", "0"}, {"scala", "scala", "Scala", "0"}, {"scheme", "scheme", "Scheme", "0"}, {"scilab", "scilab", "Scilab", "0"}, {"shell", "shell", "shell script", "0"}, {"smalltalk", "smalltalk", "Smalltalk", "0"}, {"stratego", "stratego", "Stratego", "0"}, {"structured_basic", "structured_basic", "Structured Basic", "0"}, {"sql", "sql", "SQL", "0"}, {"swift", "swift", "Swift", "0"}, {"tcl", "tcl", "TCL", "0"}, {"tex", "tex", "TeX/LaTeX", "1"}, {"tex_dtx", "tex_dtx", "TeX documented source", "1"}, {"umple", "umple", "Umple", "0"}, {"unrealscript", "unrealscript", "UnrealScript", "0"}, {"typescript", "typescript", "TypeScript", "0"}, {"vala", "vala", "Vala", "0"}, {"vb_aspx", "vb_aspx", "", "0"}, {"vhdl", "vhdl", "VHDL", "0"}, {"vim", "vim", "Vim script", "0"}, {"visualbasic", "visualbasic", "Visual Basic", "0"}, {"xaml", "xaml", "XAML", "1"}, {"xml", "xml", "XML", "1"}, {"xslt", "xslt", "XSL Transformation", "0"}, {"xmlschema", "xmlschema", "XML Schema", "1"}};
static const char *const RULES[][2] = {{"aspx", "disambiguate_aspx"}, {"asx", "disambiguate_asx"}, {"b", "disambiguate_b"}, {"basic", "disambiguate_basic"}, {"cs", "disambiguate_cs"}, {"dat", "disambiguate_dat"}, {"def", "disambiguate_def"}, {"fortran", "disambiguate_fortran"}, {"fs", "disambiguate_fs"}, {"h", "disambiguate_h"}, {"in", "disambiguate_in"}, {"inc", "disambiguate_inc"}, {"m", "disambiguate_m"}, {"mod", "disambiguate_mod"}, {"pl", "disambiguate_pl"}, {"pp", "disambiguate_pp"}, {"pro", "disambiguate_pro"}, {"r", "disambiguate_r"}, {"rs", "disambiguate_rs"}, {"st", "disambiguate_st"}};
static const char *const CPPH[][2] = {{"algorithm", "1"}, {"array", "1"}, {"bitset", "1"}, {"cassert", "1"}, {"ccomplex", "1"}, {"cctype", "1"}, {"cerrno", "1"}, {"cfenv", "1"}, {"cfloat", "1"}, {"cinttypes", "1"}, {"ciso646", "1"}, {"climits", "1"}, {"clocale", "1"}, {"cmath", "1"}, {"csetjmp", "1"}, {"csignal", "1"}, {"cstdarg", "1"}, {"cstdbool", "1"}, {"cstddef", "1"}, {"cstdint", "1"}, {"cstdio", "1"}, {"cstdlib", "1"}, {"cstring", "1"}, {"ctgmath", "1"}, {"ctime", "1"}, {"cwchar", "1"}, {"cwctype", "1"}, {"deque", "1"}, {"exception", "1"}, {"fstream", "1"}, {"functional", "1"}, {"iomanip", "1"}, {"ios", "1"}, {"iosfwd", "1"}, {"iostream", "1"}, {"istream", "1"}, {"iterator", "1"}, {"limits", "1"}, {"list", "1"}, {"locale", "1"}, {"map", "1"}, {"memory", "1"}, {"new", "1"}, {"numeric", "1"}, {"ostream", "1"}, {"queue", "1"}, {"random", "1"}, {"regex", "1"}, {"set", "1"}, {"sstream", "1"}, {"stack", "1"}, {"stdexcept", "1"}, {"streambuf", "1"}, {"string", "1"}, {"system_error", "1"}, {"tuple", "1"}, {"type_traits", "1"}, {"typeinfo", "1"}, {"unordered_map", "1"}, {"unordered_set", "1"}, {"utility", "1"}, {"valarray", "1"}, {"vector", "1"}, {"tr1/array", "1"}, {"tr1/ccomplex", "1"}, {"tr1/cctype", "1"}, {"tr1/cfenv", "1"}, {"tr1/cfloat", "1"}, {"tr1/cinttypes", "1"}, {"tr1/climits", "1"}, {"tr1/cmath", "1"}, {"tr1/complex", "1"}, {"tr1/cstdarg", "1"}, {"tr1/cstdbool", "1"}, {"tr1/cstdint", "1"}, {"tr1/cstdio", "1"}, {"tr1/cstdlib", "1"}, {"tr1/ctgmath", "1"}, {"tr1/ctime", "1"}, {"tr1/cwchar", "1"}, {"tr1/cwctype", "1"}, {"tr1/memory", "1"}, {"tr1/random", "1"}, {"tr1/regex", "1"}, {"tr1/tuple", "1"}, {"tr1/type_traits", "1"}, {"tr1/unordered_map", "1"}, {"tr1/unordered_set", "1"}, {"tr1/utility", "1"}};
static const char *const PARSERS[][2] = {{"actionscript", "parse_actionscript"}, {"ada", "parse_ada"}, {"ampl", "parse_ampl"}, {"assembler", "parse_assembler"}, {"augeas", "parse_augeas"}, {"autoconf", "parse_autoconf"}, {"automake", "parse_automake"}, {"awk", "parse_awk"}, {"bat", "parse_bat"}, {"blitzmax", "parse_blitzmax"}, {"boo", "parse_boo"}, {"brainfuck", "parse_brainfuck"}, {"bfpp", "parse_bfpp"}, {"c", "parse_c"}, {"chaiscript", "parse_chaiscript"}, {"cmake", "parse_cmake"}, {"classic_basic", "parse_classic_basic"}, {"clearsilver", "parse_clearsilver"}, {"clearsilver_template", "parse_cshtml"}, {"clojure", "parse_clojure"}, {"coffeescript", "parse_coffeescript"}, {"coq", "parse_coq"}, {"crystal", "parse_crystal"}, {"cpp", "parse_cpp"}, {"cs_aspx", "parse_cs_aspx"}, {"csharp", "parse_csharp"}, {"css", "parse_css"}, {"cuda", "parse_cuda"}, {"dart", "parse_dart"}, {"dcl", "parse_dcl"}, {"dmd", "parse_d"}, {"dylan", "parse_dylan"}, {"ebuild", "parse_ebuild"}, {"ec", "parse_ec"}, {"eiffel", "parse_eiffel"}, {"elm", "parse_elm"}, {"erlang", "parse_erlang"}, {"exheres", "parse_exheres"}, {"emacslisp", "parse_emacslisp"}, {"factor", "parse_factor"}, {"forth", "parse_forth"}, {"fortranfixed", "parse_fortranfixed"}, {"fortranfree", "parse_fortranfree"}, {"fsharp", "parse_fsharp"}, {"genie", "parse_genie"}, {"glsl", "parse_glsl"}, {"golang", "parse_golang"}, {"grace", "parse_grace"}, {"groovy", "parse_groovy"}, {"haskell", "parse_haskell"}, {"haml", "parse_haml"}, {"haxe", "parse_haxe"}, {"html", "parse_html"}, {"idl_pvwave", "parse_idl_pvwave"}, {"jam", "parse_jam"}, {"java", "parse_java"}, {"javascript", "parse_javascript"}, {"julia", "parse_julia"}, {"jsp", "parse_jsp"}, {"kotlin", "parse_kotlin"}, {"lisp", "parse_lisp"}, {"limbo", "parse_limbo"}, {"lisp", "parse_lisp"}, {"livecode", "parse_livecode"}, {"logtalk", "parse_logtalk"}, {"lua", "parse_lua"}, {"make", "parse_makefile"}, {"mathematica", "parse_mathematica"}, {"matlab", "parse_matlab"}, {"metafont", "parse_metafont"}, {"metapost", "parse_metapost"}, {"metapost_with_tex", "parse_mptex"}, {"modelica", "parse_modelica"}, {"modula2", "parse_modula2"}, {"modula3", "parse_modula3"}, {"mxml", "parse_mxml"}, {"nix", "parse_nix"}, {"nsis", "parse_nsis"}, {"oberon", "parse_oberon"}, {"objective_c", "parse_objective_c"}, {"objective_j", "parse_objective_j"}, {"ocaml", "parse_ocaml"}, {"octave", "parse_octave"}, {"pascal", "parse_pascal"}, {"perl", "parse_perl"}, {"php", "parse_phtml"}, {"pike", "parse_pike"}, {"postscript", "parse_postscript"}, {"powershell", "parse_powershell"}, {"prolog", "parse_prolog"}, {"puppet", "parse_puppet"}, {"python", "parse_python"}, {"qml", "parse_qml"}, {"r", "parse_r"}, {"racket", "parse_racket"}, {"rebol", "parse_rebol"}, {"rexx", "parse_rexx"}, {"rhtml", "parse_rhtml"}, {"ruby", "parse_ruby"}, {"rust", "parse_rust"}, {"scala", "parse_scala"}, {"scheme", "parse_scheme"}, {"scilab", "parse_scilab"}, {"shell", "parse_shell"}, {"smalltalk", "parse_smalltalk"}, {"stratego", "parse_stratego"}, {"structured_basic", "parse_structured_basic"}, {"sql", "parse_sql"}, {"swift", "parse_swift"}, {"tcl", "parse_tcl"}, {"tex", "parse_tex"}, {"tex_dtx", "parse_tex_dtx"}, {"umple", "parse_umple"}, {"unrealscript", "parse_unrealscript"}, {"typescript", "parse_typescript"}, {"vala", "parse_vala"}, {"vb_aspx", "parse_vb_aspx"}, {"vhdl", "parse_vhdl"}, {"vim", "parse_vim"}, {"visualbasic", "parse_visual_basic"}, {"xaml", "parse_xaml"}, {"xml", "parse_xml"}, {"xslt", "parse_xslt"}, {"xmlschema", "parse_xmlschema"}};
static const char *const OPTS[][2] = {{"-a", "1"}, {"--annotate", "1"}, {"-d", "2"}, {"--detect", "2"}, {"-h", "3"}, {"--help", "3"}, {"-i", "4"}, {"--individual", "4"}, {"-l", "5"}, {"--license", "5"}, {"-re", "6"}, {"-s", "7"}, {"--summary", "7"}};
}
