# The platforms and tools, and what each is known by. ("gestalts" are found in this order, again and again until nothing new is found.)
SHIPPED = [
  ['platform', 'posix', [:headers, 'pthread.h', 'xstrtol.h', 'xreadlink.h', 'fatal-signal.h', 'diacrit.h', 'syslog.h', 'sys/stat.h'], [:language, 'autoconf', 0]],
  ['platform', 'win32', [:headers, 'windows.h'], [:keywords, 'c', 2, 'WM_PAINT', 'ReleaseDC', 'WndProc']],
  ['platform', 'visualbasic', [:language, 'visualbasic', 5]],
  ['platform', 'ruby', [:language, 'ruby', 15]],
  ['platform', 'rails', [:and, [:gestalt, 'platform', 'ruby'], [:keywords, 'ruby', 1, 'RAILS_ROOT']]],
  ['platform', 'java', [:language, 'java', 15]],
  ['platform', 'javascript', [:language, 'javascript', 20]],
  ['platform', 'jquery', [:filenames, "jquery-\\d.\\d.\\d.min.js$"]],
  ['platform', 'mootools', [:filenames, "\\bmootools-\\d(\\.\\d)*(-core)?(-..)?\\.js$"]],
  ['platform', 'prototype', [:filenames, "\\bprototype(-\\d+(\\.\\d)+)?.js$"]],
  ['platform', 'yui', [:or, [:filenames, "\\byahoo-min\\.js$"], [:keywords, 'html', 1, "\\byahoo-min\\.js\\b"]]],
  ['platform', 'dojo', [:or, [:filenames, "\\bdojo\\.js$"], [:keywords, 'html', 1, "\\bdojo\\.xd\\.js\\b"]]],
  ['platform', 'flash', [:or, [:language, 'actionscript', 1], [:and, [:gestalt, 'platform', 'java'], [:java_import, /^(flash)\..+/]]]],
  ['platform', 'flex', [:or, [:language, 'mxml', 1], [:and, [:gestalt, 'platform', 'java'], [:java_import, /^(mx)\..+/]]]],
  ['platform', 'xwindows', [:headers, 'Xlib.h', "X11\\/xpm.h", 'X11/Xlib.h']],
  ['platform', 'mac', [:keywords, 'c', 1, 'AppleEvent', 'AEBuildAppleEvent'], [:filenames, "\\.plist"]],
  ['platform', 'php', [:language, 'php', 15]],
  ['platform', 'wxwidgets', [:headers, 'wx/window.h']],
  ['platform', 'zendframework', [:and, [:gestalt, 'platform', 'php'], [:keywords, 'php', 1, 'Zend_Controller_Action']]],
  ['platform', 'symfony', [:and, [:gestalt, 'platform', 'php'], [:keywords, 'php', 1, 'sfCore', 'sfConfig']]],
  ['platform', 'pear', [:and, [:gestalt, 'platform', 'php'], [:or, [:filenames, "\\bpackage\\.xml(\\.tpl)?$"], [:keywords, 'xml', 1, "pear\\.php\\.net/dtd/package\\-2\\.0"]]]],
  ['platform', 'moodle', [:and, [:gestalt, 'platform', 'php'], [:keywords, 'php', 1, 'moodle']]],
  ['platform', 'sql', [:language, 'sql', 0]],
  ['platform', 'mysql', [:keywords, 'php', 1, 'mysql_connect']],
  ['platform', 'postgresql', [:keywords, 'php', 1, 'pg_connect']],
  ['platform', 'python', [:language, 'python', 15]],
  ['platform', 'perl', [:language, 'perl', 20]],
  ['platform', 'scripting', [:gestalt, 'platform', 'javascript'], [:gestalt, 'platform', 'perl'], [:gestalt, 'platform', 'php'], [:gestalt, 'platform', 'python'], [:gestalt, 'platform', 'ruby']],
  ['platform', 'cakephp', [:and, [:gestalt, 'platform', 'php'], [:keywords, 'php', 1, 'CAKE_CORE_INCLUDE_PATH']]],
  ['platform', 'kde', [:headers, 'KDEInit.h', 'kdeversion.h']],
  ['platform', 'gtk', [:keywords, 'c', 1, 'gtk_init', 'gtk_main', 'gtk_window_new', 'GtkWidget']],
  ['platform', 'drupal', [:and, [:gestalt, 'platform', 'php'], [:or, [:keywords, 'php', 1, 'drupal_set_message'], [:keywords, 'php', 1, 'drupal_render'], [:keywords, 'php', 3, 'Drupal']]]],
  ['platform', 'msdos', [:keywords, 'c', 2, '__MSDOS__', 'MSDOS']],
  ['platform', 'eclipseplatform', [:java_import, /org\.eclipse\./]],
  ['tool', 'visualstudio', [:filenames, "\\.(sln|vcproj|vsproj|csproj|vbproj|vbp)$"]],
  ['tool', 'eclipse', [:filenames, "\\.(project|classpath)$"]],
  ['tool', 'netbeans', [:filenames, "\\bnbplatform\\b"], [:filenames, "\\.nbm$"]],
  ['platform', 'arm', [:headers, 'arm4.h', 'arm3.h'], [:keywords, 'c', 1, 'arm_int32_t', 'arm_start_application', '__arm__'], [:keywords, 'make', 1, "\\b\\-mabi\\b", "\\barmcc\\b"], [:keywords, 'java', 1, "\\barm\\-eabi"], [:keywords, 'assembler', 1, "\\bsmlal\\b", "\\bsmulw\\b", "\\borrs\\b"], [:gestalt, 'platform', 'arm_neon'], [:java_import, /org\.opengroup\.arm/]],
  ['platform', 'arm_neon', [:keywords, 'assembler', 1, "\\bvld1\\.\\d\\d\\b", "\\bvld1\\.\\d\\d\\b", "\\bvmov\\b", "\\bvmov\\.u8\\b"], [:keywords, 'make', 1, "\\bneon\\b", "\\bNEON\\b"]],
  ['platform', 'sse3_atom_flag', [:keywords, 'make', 1, 'SSE3_ATOM']],
  ['platform', 'xl_flag', [:keywords, 'make', 1, "\\bxL\\b", "\\/QxL\\b"]],
  ['platform', 'atom', [:gestalt, 'platform', 'sse3_atom_flag'], [:gestalt, 'platform', 'xl_flag']],
  ['platform', 'intel_compiler', [:keywords, 'make', 1, "\\bicc\\b"]],
  ['platform', 'gcc', [:keywords, 'make', 1, "\\bgcc\\b"]],
  ['platform', 'clutter', [:keywords, 'c', 1, 'ClutterActor', "\\bclutter_actor_", 'ClutterStage', 'ClutterBehavior', 'clutter_main'], [:keywords, 'csharp', 1, 'ClutterActor', "\\bclutter_actor_", 'ClutterStage', 'ClutterBehavior', 'clutter_main'], [:keywords, 'perl', 1, 'Clutter::Behavior', 'Clutter::Actor', 'Clutter::Stage'], [:keywords, 'java', 1, 'ClutterActor', 'ClutterStage', 'ClutterShader'], [:keywords, 'ruby', 1, 'Clutter::Actor', 'Clutter::Stage', 'Clutter::Shader', 'Clutter::Cairo']],
  ['platform', 'moblin_misc', [:keywords, 'c', 1, "\\\"org\\.moblin\\.", 'MOBLIN_NETBOOK_SYSTEM_TRAY_H', 'org_Moblin_', "\\\"org\\.Moblin\\.", 'url="http://moblin.org">http://moblin.org</ulink>'], [:keywords, 'make', 1, 'org.moblin.', 'moblin-netbook'], [:filenames, 'moblin-netbook-system-tray.h$']],
  ['platform', 'nbtk', [:keywords, 'c', 1, "\\bnbtk_[a-z]+", "\\bNbtk[A-Z][a-z]+"], [:keywords, 'java', 1, "\\bnbtk_[a-z]+", "\\bNbtk[A-Z][a-z]+"], [:keywords, 'ruby', 1, "\\bnbtk_[a-z]+", "\\bNbtk[A-Z][a-z]+"], [:filenames, "nbtk\\/nbtk.h"]],
  ['platform', 'moblin', [:gestalt, 'platform', 'clutter'], [:gestalt, 'platform', 'moblin_misc'], [:gestalt, 'platform', 'nbtk']],
  ['platform', 'android', [:java_import, /\bandroid\./]],
  ['platform', 'iphone', [:keywords, 'objective_c', 1, "\\bUIApplicationMain", "\\bUIWindow", "\\bUIView", "\\bUIResponder"]],
  ['platform', 'hildon', [:keywords, 'c', 1, "\\bHildonFile", "\\bhildon_file_", "\\bHildonProgram", "\\bHildonWindow", "\\bhildon_window"], [:headers, 'hildon/hildon.h'], [:and, [:keywords, 'python', 1, "\\bimport hildon"], [:keywords, 'python', 1, "\\bimport gtk"]]],
  ['platform', 'maemo', [:gestalt, 'platform', 'hildon']],
  ['platform', 'mid_combined', [:gestalt, 'platform', 'clutter'], [:gestalt, 'platform', 'nbtk'], [:gestalt, 'platform', 'moblin'], [:gestalt, 'platform', 'maemo'], [:gestalt, 'platform', 'android'], [:gestalt, 'platform', 'iphone']],
  ['platform', 'windows_ce_incomplete', [:keywords, 'csharp', 1, "Microsoft\\.WindowsCE", "Microsoft\\.WindowsMobile"], [:keywords, 'visualbasic', 1, "Microsoft\\.WindowsCE", "Microsoft\\.WindowsMobile"]],
  ['platform', 'native_code', [:language, 'c', 5], [:language, 'cpp', 5], [:language, 'cncpp', 5], [:language, 'assembly', 5], [:language, 'dmd', 5], [:language, 'fortranfixed', 5], [:language, 'fortranfree', 5], [:language, 'haskell', 5], [:language, 'cobol', 5]],
  ['platform', 'dot_net', [:or, [:language, 'csharp', 10], [:gestalt, 'platform', 'asp_net'], [:gestalt, 'platform', 'wpf'], [:gestalt, 'platform', 'silverlight']]],
  ['platform', 'asp_net', [:filenames, "\\.(aspx|ascx|ashx|asax|axd)$"]],
  ['platform', 'wpf', [:filenames, "\\.xaml$"]],
  ['platform', 'silverlight', [:or, [:csharp_using, /^System.Web.Silverlight\b/], [:keywords, 'html', 1, "\\basp:Silverlight\\b"], [:csproj, /\bSilverlight\b/], [:and, [:gestalt, 'platform', 'asp_net'], [:gestalt, 'platform', 'wpf']]]],
  ['platform', 'glassfish', [:and, [:gestalt, 'platform', 'java'], [:or, [:find, /\b(sun\-web|sun\-ejb\-jar|sun\-application(\-client))\.xml\b/, 0], [:maven, 'dependency', /^org.glassfish\b/]]]],
  ['platform', 'jboss', [:and, [:gestalt, 'platform', 'java'], [:or, [:find, /\bjboss(\-app|cmp\-jdbc|\-web|\-build|\-client)\.xml\b/, 0], [:maven, 'dependency', /^org.jboss\b/]]]],
  ['platform', 'weblogic', [:and, [:gestalt, 'platform', 'java'], [:or, [:find, /\bweblogic(\-ejb\-jar|\-ra|\-application|\-cmp\-rdbms\jar)\.xml\b/, 0], [:maven, 'plugin', /^org\.codehaus\.mojo\b/, /^weblogic\-maven\-plugin\b/]]]],
  ['platform', 'jonas', [:and, [:gestalt, 'platform', 'java'], [:find, /\bjonas\-ejb\-jar\.xml\b/, 0]]],
  ['platform', 'websphere', [:and, [:gestalt, 'platform', 'java'], [:find, /\bibm\-(application|web|webservices|webservicesclient)\-.+\.xmi$/, 0]]],
  ['platform', 'tomcat', [:and, [:gestalt, 'platform', 'java'], [:or, [:java_import, /^org\.apache\.tomcat\b/], [:maven, 'dependency', /^org\.apache\.tomcat\b/]]]],
  ['platform', 'appserver', [:or, [:gestalt, 'platform', 'glassfish'], [:gestalt, 'platform', 'jboss'], [:gestalt, 'platform', 'weblogic'], [:gestalt, 'platform', 'tomcat'], [:gestalt, 'platform', 'jonas'], [:gestalt, 'platform', 'websphere']]],
  ['platform', 'ejb2', [:and, [:gestalt, 'platform', 'java'], [:or, [:find, /(.+\-)ejb\-jar\.xml\b/, 0], [:keywords, 'java', 1, 'EJBHome', 'EJBRemote', 'SessionBean']]]],
  ['platform', 'ejb3.1', [:and, [:gestalt, 'platform', 'java'], [:or, [:keywords, 'java', 1, '@Schedule', '@Singleton', '@Asynchronous'], [:keywords, 'java', 1, /@EJB\(.*\bmappedName\s*=\s*"java:(global|app|module)\/.+".*\)/], [:keywords, 'java', 1, /\blookup\(\s*"java:(global|app|module)\/.+"\s*\)/]]]],
  ['platform', 'ejb3+', [:and, [:gestalt, 'platform', 'java'], [:or, [:gestalt, 'platform', 'ejb3.1'], [:keywords, 'java', 1, '@EJB', '@Stateless', '@Statefull', '@Entity', '@Remote', '@Local', '@BusinessMethod'], [:java_import, /^javax\.persistence\b/]]]],
  ['platform', 'ejb3.0', [:and, [:gestalt, 'platform', 'ejb3+'], [:not, [:gestalt, 'platform', 'ejb3.1']]]],
  ['platform', 'servlet', [:and, [:gestalt, 'platform', 'java'], [:or, [:java_import, /^javax\.servlet\b/], [:maven, 'dependency', /^javax\.servlet\b/]]]],
  ['platform', 'struts', [:and, [:gestalt, 'platform', 'java'], [:or, [:filenames, "\\bstruts(\\-config)?\\.xml$", "\\bstruts\\.jar$"], [:java_import, /^org\.apache\.struts\b/], [:maven, 'dependency', /^org\.apache\.struts\b/]]]],
  ['platform', 'springframework', [:and, [:gestalt, 'platform', 'java'], [:or, [:filenames, "spring\\.jar$"], [:java_import, /^org\.springframework\b/], [:maven, 'dependency', /^org\.springframework\b/]]]],
  ['platform', 'jsf', [:and, [:gestalt, 'platform', 'java'], [:or, [:java_import, /^javax\.faces\b/], [:maven, 'dependency', /^javax\.faces\b/]]]],
  ['platform', 'googlewebtoolkit', [:and, [:gestalt, 'platform', 'java'], [:java_import, /^com\.google\.gwt\b/]]],
  ['platform', 'hibernate', [:and, [:gestalt, 'platform', 'java'], [:or, [:filenames, "\\bhibernate\\d\\.jar$"], [:java_import, /^org\.hibernate\b/], [:maven, 'dependency', 'org.hibernate']]]],
  ['platform', 'jpa', [:and, [:gestalt, 'platform', 'java'], [:java_import, /^javax\.persistence\b/]]],
  ['platform', 'toplink', [:and, [:gestalt, 'platform', 'java'], [:java_import, /^oracle\.toplink\b/]]],
  ['platform', 'castor', [:and, [:gestalt, 'platform', 'java'], [:java_import, /^org\.exolab\.castor\b/]]],
  ['platform', 'db4o', [:and, [:gestalt, 'platform', 'java'], [:java_import, /^com\.db4o\b/]]],
  ['platform', 'openesb', [:and, [:gestalt, 'platform', 'java'], [:java_import, /^org\.openesb\b/]]],
  ['platform', 'muleesb', [:and, [:gestalt, 'platform', 'java'], [:java_import, /^org\.mule\b/]]],
  ['platform', 'servicemix', [:and, [:gestalt, 'platform', 'java'], [:or, [:java_import, /^org\.apache\.servicemix\b/], [:maven, 'dependency', /^org.apache.servicemix\b/]]]],
  ['platform', 'jbossesb', [:and, [:gestalt, 'platform', 'java'], [:java_import, /^org\.jboss\.soa\.esb\b/]]],
  ['platform', 'opensso', [:and, [:gestalt, 'platform', 'java'], [:or, [:filenames, "\\bopensso\\.war$"], [:java_import, /^com\.sun\.identity\.(authentication|agents)\b/]]]],
  ['platform', 'maven', [:and, [:gestalt, 'platform', 'java'], [:find, /\bpom\.xml$/, 0]]],
  ['platform', 'jaspersoft', [:or, [:gestalt, 'platform', 'jaspersoft_keyword'], [:gestalt, 'platform', 'jasper_reports'], [:gestalt, 'platform', 'jasper_server'], [:gestalt, 'platform', 'jasper_ireport'], [:gestalt, 'platform', 'jasper_intelligence']]],
  ['platform', 'jaspersoft_keyword', [:keywords, :any, 1, /jaspersoft/i]],
  ['platform', 'jasper_reports', [:or, [:gestalt, 'platform', 'jasper_reports_keyword'], [:gestalt, 'platform', 'jasper_reports_java']]],
  ['platform', 'jasper_reports_keyword', [:keywords, :any, 1, /jasper[ _-]?reports?/i]],
  ['platform', 'jasper_reports_java', [:or, [:maven, 'dependency', /jasperreports/], [:keywords, 'java', 1, "\\bnet\\.sf\\.jasperreports\\b"]]],
  ['platform', 'jasper_server', [:or, [:gestalt, 'platform', 'jasper_server_keyword'], [:gestalt, 'platform', 'jasper_server_java']]],
  ['platform', 'jasper_server_keyword', [:keywords, :any, 1, /jasper[ _-]?server/i]],
  ['platform', 'jasper_server_java', [:keywords, 'java', 1, "\\bcom\\.jaspersoft\\.jasperserver\\b"]],
  ['platform', 'jasper_intelligence', [:keywords, 'java', 1, "\\bcom\\.jaspersoft\\.ji"]],
  ['platform', 'jasper_ireport', [:and, [:keywords, :any, 1, /jasper/i], [:keywords, :any, 1, /ireport/i]]],
]
