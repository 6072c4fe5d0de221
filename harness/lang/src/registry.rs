// Generated once by gen.py/gen2.py; one entry per language crate of the workspace.
use crate::engine::run_language;
use crate::protocol::Job;

pub fn names() -> Vec<&'static str> { vec!["actionscript", "ada", "apl", "ascii-doc", "bash", "bat", "c", "clojure", "cmd", "cobol", "coq", "cpp", "crystal", "csharp", "css", "csv", "d", "dart", "dejavu", "delphi", "dhall", "django", "dockerfile", "dot", "elixir", "elm", "erlang", "fortran", "fsharp", "go", "graphql", "groovy", "gsgl", "handlebars", "haskell", "hlsl", "html", "idl", "ini", "j", "jasm", "jasmin", "java", "javadoc", "javascript", "json", "julia", "kotlin", "lean", "llvm-ir", "lua", "markdown", "matlab", "mermaid", "mojo", "msil", "nginx", "nim", "nix", "notedown", "objective-c", "ocaml", "org-mode", "pascal", "perl", "php", "powershell", "prolog", "protobuf", "purescript", "python", "r", "raku", "rbq", "regex", "ruby", "rust", "sass", "scala", "scheme", "scss", "smalltalk", "solidity", "sql", "stylus", "svelte", "swift", "tailwind", "tcl", "tex", "toml", "twig", "typescript", "typst", "vala", "valkyrie", "vampire", "verilog", "vhdl", "vlang", "voc", "voml", "von", "wat", "wgsl", "wit-component", "wolfram", "xml", "yaml", "zig"] }

pub fn dispatch(lang: &str, job: &mut Job) {
    match lang {
        "actionscript" => { let l = oak_actionscript::ActionScriptLanguage::default(); run_language::<oak_actionscript::ActionScriptLanguage, _, _>(&oak_actionscript::lexer::ActionScriptLexer::new(&l), &oak_actionscript::parser::ActionScriptParser::new(&l), job) }
        "ada" => { let l = oak_ada::language::AdaLanguage::default(); run_language::<oak_ada::language::AdaLanguage, _, _>(&oak_ada::lexer::AdaLexer::new(&l), &oak_ada::parser::AdaParser::new(&l), job) }
        "apl" => { let l = oak_apl::language::AplLanguage::default(); run_language::<oak_apl::language::AplLanguage, _, _>(&oak_apl::lexer::AplLexer::new(&l), &oak_apl::parser::AplParser::new(&l), job) }
        "ascii-doc" => { let l = oak_ascii_doc::AsciiDocLanguage::default(); run_language::<oak_ascii_doc::AsciiDocLanguage, _, _>(&oak_ascii_doc::lexer::AsciiDocLexer::new(&l), &oak_ascii_doc::parser::AsciiDocParser::new(&l), job) }
        "bash" => { let l = oak_bash::language::BashLanguage::default(); run_language::<oak_bash::language::BashLanguage, _, _>(&oak_bash::lexer::BashLexer::new(&l), &oak_bash::parser::BashParser::new(&l), job) }
        "bat" => { let l = oak_bat::language::BatLanguage::default(); run_language::<oak_bat::language::BatLanguage, _, _>(&oak_bat::lexer::BatLexer::new(&l), &oak_bat::parser::BatParser::new(&l), job) }
        "c" => { let l = oak_c::language::CLanguage::default(); run_language::<oak_c::language::CLanguage, _, _>(&oak_c::lexer::CLexer::new(&l), &oak_c::parser::CParser::new(&l), job) }
        "clojure" => { let l = oak_clojure::ClojureLanguage::default(); run_language::<oak_clojure::ClojureLanguage, _, _>(&oak_clojure::ClojureLexer::new(&l), &oak_clojure::parser::ClojureParser::new(&l), job) }
        "cmd" => { let l = oak_cmd::language::CmdLanguage::default(); run_language::<oak_cmd::language::CmdLanguage, _, _>(&oak_cmd::lexer::CmdLexer::new(&l), &oak_cmd::parser::CmdParser::new(&l), job) }
        "cobol" => { let l = oak_cobol::language::CobolLanguage::default(); run_language::<oak_cobol::language::CobolLanguage, _, _>(&oak_cobol::lexer::CobolLexer::new(&l), &oak_cobol::parser::CobolParser::new(&l), job) }
        "coq" => { let l = oak_coq::language::CoqLanguage::default(); run_language::<oak_coq::language::CoqLanguage, _, _>(&oak_coq::lexer::CoqLexer::new(&l), &oak_coq::parser::CoqParser::new(&l), job) }
        "cpp" => { let l = oak_cpp::language::CppLanguage::default(); run_language::<oak_cpp::language::CppLanguage, _, _>(&oak_cpp::lexer::CppLexer::new(&l), &oak_cpp::parser::CppParser::new(&l), job) }
        "crystal" => { let l = oak_crystal::language::CrystalLanguage::default(); run_language::<oak_crystal::language::CrystalLanguage, _, _>(&oak_crystal::lexer::CrystalLexer::new(&l), &oak_crystal::parser::CrystalParser::new(&l), job) }
        "csharp" => { let l = oak_csharp::language::CSharpLanguage::default(); run_language::<oak_csharp::language::CSharpLanguage, _, _>(&oak_csharp::lexer::CSharpLexer::new(&l), &oak_csharp::parser::CSharpParser::new(&l), job) }
        "css" => { let l = oak_css::language::CssLanguage::default(); run_language::<oak_css::language::CssLanguage, _, _>(&oak_css::lexer::CssLexer::new(&l), &oak_css::parser::CssParser::new(&l), job) }
        "csv" => { let l = oak_csv::language::CsvLanguage::default(); run_language::<oak_csv::language::CsvLanguage, _, _>(&oak_csv::lexer::CsvLexer::new(&l), &oak_csv::parser::CsvParser::new(&l), job) }
        "d" => { let l = oak_d::language::DLanguage::default(); run_language::<oak_d::language::DLanguage, _, _>(&oak_d::lexer::DLexer::new(&l), &oak_d::parser::DParser::new(&l), job) }
        "dart" => { let l = oak_dart::language::DartLanguage::default(); run_language::<oak_dart::language::DartLanguage, _, _>(&oak_dart::lexer::DartLexer::new(&l), &oak_dart::parser::DartParser::new(&l), job) }
        "dejavu" => { let l = oak_dejavu::language::DejavuLanguage::default(); run_language::<oak_dejavu::language::DejavuLanguage, _, _>(&oak_dejavu::lexer::DejavuLexer::new(&l), &oak_dejavu::parser::DejavuParser::new(&l), job) }
        "delphi" => { let l = oak_delphi::DelphiLanguage::default(); run_language::<oak_delphi::DelphiLanguage, _, _>(&oak_delphi::DelphiLexer::new(&l), &oak_delphi::parser::DelphiParser::new(&l), job) }
        "dhall" => { let l = oak_dhall::language::DHallLanguage::default(); run_language::<oak_dhall::language::DHallLanguage, _, _>(&oak_dhall::lexer::DHallLexer::new(&l), &oak_dhall::parser::DHallParser::new(&l), job) }
        "django" => { let l = oak_django::DjangoLanguage::default(); run_language::<oak_django::DjangoLanguage, _, _>(&oak_django::DjangoLexer::new(&l), &oak_django::DjangoParser::new(&l), job) }
        "dockerfile" => { let l = oak_dockerfile::DockerfileLanguage::default(); run_language::<oak_dockerfile::DockerfileLanguage, _, _>(&oak_dockerfile::DockerfileLexer::new(&l), &oak_dockerfile::DockerfileParser::new(&l), job) }
        "dot" => { let l = oak_dot::language::DotLanguage::default(); run_language::<oak_dot::language::DotLanguage, _, _>(&oak_dot::lexer::DotLexer::new(&l), &oak_dot::parser::DotParser::new(&l), job) }
        "elixir" => { let l = oak_elixir::ElixirLanguage::default(); run_language::<oak_elixir::ElixirLanguage, _, _>(&oak_elixir::ElixirLexer::new(&l), &oak_elixir::parser::ElixirParser::new(&l), job) }
        "elm" => { let l = oak_elm::ElmLanguage::default(); run_language::<oak_elm::ElmLanguage, _, _>(&oak_elm::ElmLexer::new(&l), &oak_elm::parser::ElmParser::new(&l), job) }
        "erlang" => { let l = oak_erlang::language::ErlangLanguage::default(); run_language::<oak_erlang::language::ErlangLanguage, _, _>(&oak_erlang::lexer::ErlangLexer::new(&l), &oak_erlang::parser::ErlangParser::new(&l), job) }
        "fortran" => { let l = oak_fortran::FortranLanguage::default(); run_language::<oak_fortran::FortranLanguage, _, _>(&oak_fortran::FortranLexer::new(&l), &oak_fortran::parser::FortranParser::new(&l), job) }
        "fsharp" => { let l = oak_fsharp::FSharpLanguage::default(); run_language::<oak_fsharp::FSharpLanguage, _, _>(&oak_fsharp::FSharpLexer::new(&l), &oak_fsharp::parser::FSharpParser::new(&l), job) }
        "go" => { let l = oak_go::language::GoLanguage::default(); run_language::<oak_go::language::GoLanguage, _, _>(&oak_go::lexer::GoLexer::new(&l), &oak_go::parser::GoParser::new(&l), job) }
        "graphql" => { let l = oak_graphql::language::GraphQLLanguage {}; run_language::<oak_graphql::language::GraphQLLanguage, _, _>(&oak_graphql::lexer::GraphQLLexer::new(&l), &oak_graphql::parser::GraphQLParser::new(&l), job) }
        "groovy" => { let l = oak_groovy::language::GroovyLanguage::default(); run_language::<oak_groovy::language::GroovyLanguage, _, _>(&oak_groovy::lexer::GroovyLexer::new(&l), &oak_groovy::parser::GroovyParser::new(&l), job) }
        "gsgl" => { let l = oak_gsgl::language::GsglLanguage::default(); run_language::<oak_gsgl::language::GsglLanguage, _, _>(&oak_gsgl::lexer::GsglLexer::new(&l), &oak_gsgl::parser::GsglParser::new(l.clone()), job) }
        "handlebars" => { let l = oak_handlebars::HandlebarsLanguage::default(); run_language::<oak_handlebars::HandlebarsLanguage, _, _>(&oak_handlebars::HandlebarsLexer::new(&l), &oak_handlebars::HandlebarsParser::new(&l), job) }
        "haskell" => { let l = oak_haskell::HaskellLanguage::default(); run_language::<oak_haskell::HaskellLanguage, _, _>(&oak_haskell::HaskellLexer::new(&l), &oak_haskell::HaskellParser::new(&l), job) }
        "hlsl" => { let l = oak_hlsl::language::HlslLanguage::default(); run_language::<oak_hlsl::language::HlslLanguage, _, _>(&oak_hlsl::lexer::HlslLexer::new(&l), &oak_hlsl::parser::HlslParser::new(&l), job) }
        "html" => { let l = oak_html::language::HtmlLanguage::default(); run_language::<oak_html::language::HtmlLanguage, _, _>(&oak_html::lexer::HtmlLexer::new(&l), &oak_html::parser::HtmlParser::new(l.clone()), job) }
        "idl" => { let l = oak_idl::language::IdlLanguage::default(); run_language::<oak_idl::language::IdlLanguage, _, _>(&oak_idl::lexer::IdlLexer::new(&l), &oak_idl::parser::IdlParser::new(&l), job) }
        "ini" => { let l = oak_ini::language::IniLanguage::default(); run_language::<oak_ini::language::IniLanguage, _, _>(&oak_ini::lexer::IniLexer::new(&l), &oak_ini::parser::IniParser::new(&l), job) }
        "j" => { let l = oak_j::language::JLanguage::default(); run_language::<oak_j::language::JLanguage, _, _>(&oak_j::lexer::JLexer::new(&l), &oak_j::parser::JParser::new(&l), job) }
        "jasm" => { let l = oak_jasm::language::JasmLanguage::default(); run_language::<oak_jasm::language::JasmLanguage, _, _>(&oak_jasm::lexer::JasmLexer::new(&l), &oak_jasm::parser::JasmParser::new(&l), job) }
        "jasmin" => { let l = oak_jasmin::JasminLanguage::default(); run_language::<oak_jasmin::JasminLanguage, _, _>(&oak_jasmin::JasminLexer::new(&l), &oak_jasmin::JasminParser::new(&l), job) }
        "java" => { let l = oak_java::language::JavaLanguage::default(); run_language::<oak_java::language::JavaLanguage, _, _>(&oak_java::lexer::JavaLexer::new(&l), &oak_java::parser::JavaParser::new(&l), job) }
        "javadoc" => { let l = oak_javadoc::language::JavadocLanguage::default(); run_language::<oak_javadoc::language::JavadocLanguage, _, _>(&oak_javadoc::lexer::JavadocLexer::new(&l), &oak_javadoc::parser::JavadocParser::new(&l), job) }
        "javascript" => { let l = oak_javascript::language::JavaScriptLanguage::default(); run_language::<oak_javascript::language::JavaScriptLanguage, _, _>(&oak_javascript::lexer::JavaScriptLexer::new(&l), &oak_javascript::parser::JavaScriptParser::new(&l), job) }
        "json" => { let l = oak_json::language::JsonLanguage::default(); run_language::<oak_json::language::JsonLanguage, _, _>(&oak_json::lexer::JsonLexer::new(&l), &oak_json::parser::JsonParser::new(&l), job) }
        "julia" => { let l = oak_julia::language::JuliaLanguage::default(); run_language::<oak_julia::language::JuliaLanguage, _, _>(&oak_julia::lexer::JuliaLexer::new(&l), &oak_julia::parser::JuliaParser::new(&l), job) }
        "kotlin" => { let l = oak_kotlin::language::KotlinLanguage::default(); run_language::<oak_kotlin::language::KotlinLanguage, _, _>(&oak_kotlin::lexer::KotlinLexer::new(&l), &oak_kotlin::parser::KotlinParser::new(&l), job) }
        "lean" => { let l = oak_lean::language::LeanLanguage::default(); run_language::<oak_lean::language::LeanLanguage, _, _>(&oak_lean::lexer::LeanLexer::new(&l), &oak_lean::parser::LeanParser::new(&l), job) }
        "llvm-ir" => { let l = oak_llvm_ir::language::LLvmLanguage::default(); run_language::<oak_llvm_ir::language::LLvmLanguage, _, _>(&oak_llvm_ir::lexer::LLvmLexer::new(&l), &oak_llvm_ir::parser::LLirParser::new(&l), job) }
        "lua" => { let l = oak_lua::language::LuaLanguage::default(); run_language::<oak_lua::language::LuaLanguage, _, _>(&oak_lua::lexer::LuaLexer::new(&l), &oak_lua::parser::LuaParser::new(&l), job) }
        "markdown" => { let l = oak_markdown::language::MarkdownLanguage::default(); run_language::<oak_markdown::language::MarkdownLanguage, _, _>(&oak_markdown::lexer::MarkdownLexer::new(&l), &oak_markdown::parser::MarkdownParser::new(&l), job) }
        "matlab" => { let l = oak_matlab::language::MatlabLanguage::default(); run_language::<oak_matlab::language::MatlabLanguage, _, _>(&oak_matlab::lexer::MatlabLexer::new(&l), &oak_matlab::parser::MatlabParser::new(&l), job) }
        "mermaid" => { let l = oak_mermaid::language::MermaidLanguage::default(); run_language::<oak_mermaid::language::MermaidLanguage, _, _>(&oak_mermaid::lexer::MermaidLexer::new(&l), &oak_mermaid::parser::MermaidParser::new(&l), job) }
        "mojo" => { let l = oak_mojo::MojoLanguage::default(); run_language::<oak_mojo::MojoLanguage, _, _>(&oak_mojo::lexer::MojoLexer::new(), &oak_mojo::parser::MojoParser::new(), job) }
        "msil" => { let l = oak_msil::language::MsilLanguage::default(); run_language::<oak_msil::language::MsilLanguage, _, _>(&oak_msil::lexer::MsilLexer::new(&l), &oak_msil::parser::MsilParser::new(&l), job) }
        "nginx" => { let l = oak_nginx::language::NginxLanguage::default(); run_language::<oak_nginx::language::NginxLanguage, _, _>(&oak_nginx::lexer::NginxLexer::new(&l), &oak_nginx::parser::NginxParser::new(&l), job) }
        "nim" => { let l = oak_nim::language::NimLanguage::default(); run_language::<oak_nim::language::NimLanguage, _, _>(&oak_nim::lexer::NimLexer::new(&l), &oak_nim::parser::NimParser::new(&l), job) }
        "nix" => { let l = oak_nix::language::NixLanguage::default(); run_language::<oak_nix::language::NixLanguage, _, _>(&oak_nix::lexer::NixLexer::new(&l), &oak_nix::parser::NixParser::new(&l), job) }
        "notedown" => { let l = oak_notedown::language::NotedownLanguage::default(); run_language::<oak_notedown::language::NotedownLanguage, _, _>(&oak_notedown::lexer::NotedownLexer::new(&l), &oak_notedown::parser::NoteParser::new(&l), job) }
        "objective-c" => { let l = oak_objective_c::language::ObjectiveCLanguage::default(); run_language::<oak_objective_c::language::ObjectiveCLanguage, _, _>(&oak_objective_c::lexer::ObjectiveCLexer::new(&l), &oak_objective_c::parser::ObjectiveCParser::new(&l), job) }
        "ocaml" => { let l = oak_ocaml::language::OCamlLanguage::default(); run_language::<oak_ocaml::language::OCamlLanguage, _, _>(&oak_ocaml::lexer::OCamlLexer::new(&l), &oak_ocaml::parser::OCamlParser::new(&l), job) }
        "org-mode" => { let l = oak_org_mode::language::OrgModeLanguage::default(); run_language::<oak_org_mode::language::OrgModeLanguage, _, _>(&oak_org_mode::lexer::OrgModeLexer::new(&l), &oak_org_mode::parser::OrgModeParser::new(&l), job) }
        "pascal" => { let l = oak_pascal::language::PascalLanguage::default(); run_language::<oak_pascal::language::PascalLanguage, _, _>(&oak_pascal::lexer::PascalLexer::new(&l), &oak_pascal::parser::PascalParser::new(&l), job) }
        "perl" => { let l = oak_perl::language::PerlLanguage::default(); run_language::<oak_perl::language::PerlLanguage, _, _>(&oak_perl::lexer::PerlLexer::new(&l), &oak_perl::parser::PerlParser::new(&l), job) }
        "php" => { let l = oak_php::language::PhpLanguage::default(); run_language::<oak_php::language::PhpLanguage, _, _>(&oak_php::lexer::PhpLexer::new(&l), &oak_php::parser::PhpParser::new(&l), job) }
        "powershell" => { let l = oak_powershell::language::PowerShellLanguage::default(); run_language::<oak_powershell::language::PowerShellLanguage, _, _>(&oak_powershell::lexer::PowerShellLexer::new(&l), &oak_powershell::parser::PowerShellParser::new(&l), job) }
        "prolog" => { let l = oak_prolog::language::PrologLanguage::default(); run_language::<oak_prolog::language::PrologLanguage, _, _>(&oak_prolog::lexer::PrologLexer::new(&l), &oak_prolog::parser::PrologParser::new(l.clone()), job) }
        "protobuf" => { let l = oak_protobuf::language::ProtobufLanguage::default(); run_language::<oak_protobuf::language::ProtobufLanguage, _, _>(&oak_protobuf::lexer::ProtobufLexer::new(&l), &oak_protobuf::parser::ProtobufParser::new(&l), job) }
        "purescript" => { let l = oak_purescript::language::PurescriptLanguage::default(); run_language::<oak_purescript::language::PurescriptLanguage, _, _>(&oak_purescript::lexer::PurescriptLexer::new(&l), &oak_purescript::parser::PurescriptParser::new(&l), job) }
        "python" => { let l = oak_python::language::PythonLanguage::default(); run_language::<oak_python::language::PythonLanguage, _, _>(&oak_python::lexer::PythonLexer::new(&l), &oak_python::parser::PythonParser::new(&l), job) }
        "r" => { let l = oak_r::language::RLanguage::default(); run_language::<oak_r::language::RLanguage, _, _>(&oak_r::lexer::RLexer::new(&l), &oak_r::parser::RParser::new(&l), job) }
        "raku" => { let l = oak_raku::language::RakuLanguage::default(); run_language::<oak_raku::language::RakuLanguage, _, _>(&oak_raku::lexer::RakuLexer::new(), &oak_raku::parser::RakuParser::new(l.clone()), job) }
        "rbq" => { let l = oak_rbq::language::RbqLanguage::default(); run_language::<oak_rbq::language::RbqLanguage, _, _>(&oak_rbq::lexer::RbqLexer::new(&l), &oak_rbq::parser::RbqParser::new(&l), job) }
        "regex" => { let l = oak_regex::language::RegexLanguage::default(); run_language::<oak_regex::language::RegexLanguage, _, _>(&oak_regex::lexer::RegexLexer::new(&l), &oak_regex::parser::RegexParser::new(&l), job) }
        "ruby" => { let l = oak_ruby::language::RubyLanguage::default(); run_language::<oak_ruby::language::RubyLanguage, _, _>(&oak_ruby::lexer::RubyLexer::new(&l), &oak_ruby::parser::RubyParser::new(&l), job) }
        "rust" => { let l = oak_rust::language::RustLanguage::default(); run_language::<oak_rust::language::RustLanguage, _, _>(&oak_rust::lexer::RustLexer::new(&l), &oak_rust::parser::RustParser::new(&l), job) }
        "sass" => { let l = oak_sass::language::SassLanguage::default(); run_language::<oak_sass::language::SassLanguage, _, _>(&oak_sass::lexer::SassLexer::new(&l), &oak_sass::parser::SassParser::new(&l), job) }
        "scala" => { let l = oak_scala::language::ScalaLanguage::default(); run_language::<oak_scala::language::ScalaLanguage, _, _>(&oak_scala::lexer::ScalaLexer::new(&l), &oak_scala::parser::ScalaParser::new(&l), job) }
        "scheme" => { let l = oak_scheme::language::SchemeLanguage::default(); run_language::<oak_scheme::language::SchemeLanguage, _, _>(&oak_scheme::lexer::SchemeLexer::new(&l), &oak_scheme::parser::SchemeParser::new(&l), job) }
        "scss" => { let l = oak_scss::language::ScssLanguage::default(); run_language::<oak_scss::language::ScssLanguage, _, _>(&oak_scss::lexer::ScssLexer::new(&l), &oak_scss::parser::ScssParser::new(&l), job) }
        "smalltalk" => { let l = oak_smalltalk::language::SmalltalkLanguage::default(); run_language::<oak_smalltalk::language::SmalltalkLanguage, _, _>(&oak_smalltalk::lexer::SmalltalkLexer::new(&l), &oak_smalltalk::parser::SmalltalkParser::new(&l), job) }
        "solidity" => { let l = oak_solidity::language::SolidityLanguage::default(); run_language::<oak_solidity::language::SolidityLanguage, _, _>(&oak_solidity::lexer::SolidityLexer::new(&l), &oak_solidity::parser::SolidityParser::new(&l), job) }
        "sql" => { let l = oak_sql::language::SqlLanguage::default(); run_language::<oak_sql::language::SqlLanguage, _, _>(&oak_sql::lexer::SqlLexer::new(&l), &oak_sql::parser::SqlParser::new(&l), job) }
        "stylus" => { let l = oak_stylus::language::StylusLanguage::default(); run_language::<oak_stylus::language::StylusLanguage, _, _>(&oak_stylus::lexer::StylusLexer::new(&l), &oak_stylus::StylusParser::new(&l), job) }
        "svelte" => { let l = oak_svelte::language::SvelteLanguage::default(); run_language::<oak_svelte::language::SvelteLanguage, _, _>(&oak_svelte::lexer::SvelteLexer::new(&l), &oak_svelte::parser::SvelteParser::new(&l), job) }
        "swift" => { let l = oak_swift::language::SwiftLanguage::default(); run_language::<oak_swift::language::SwiftLanguage, _, _>(&oak_swift::lexer::SwiftLexer::new(&l), &oak_swift::parser::SwiftParser::new(&l), job) }
        "tailwind" => { let l = oak_tailwind::language::TailwindLanguage::default(); run_language::<oak_tailwind::language::TailwindLanguage, _, _>(&oak_tailwind::lexer::TailwindLexer::new(&l), &oak_tailwind::parser::TailwindParser::new(&l), job) }
        "tcl" => { let l = oak_tcl::language::TclLanguage::default(); run_language::<oak_tcl::language::TclLanguage, _, _>(&oak_tcl::lexer::TclLexer::new(&l), &oak_tcl::parser::TclParser::new(&l), job) }
        "tex" => { let l = oak_tex::language::TexLanguage::default(); run_language::<oak_tex::language::TexLanguage, _, _>(&oak_tex::lexer::TexLexer::new(&l), &oak_tex::parser::TexParser::new(&l), job) }
        "toml" => { let l = oak_toml::language::TomlLanguage::default(); run_language::<oak_toml::language::TomlLanguage, _, _>(&oak_toml::lexer::TomlLexer::new(&l), &oak_toml::parser::TomlParser::new(&l), job) }
        "twig" => { let l = oak_twig::language::TwigLanguage::default(); run_language::<oak_twig::language::TwigLanguage, _, _>(&oak_twig::lexer::TwigLexer::new(&l), &oak_twig::parser::TwigParser::new(&l), job) }
        "typescript" => { let l = oak_typescript::language::TypeScriptLanguage::default(); run_language::<oak_typescript::language::TypeScriptLanguage, _, _>(&oak_typescript::lexer::TypeScriptLexer::new(&l), &oak_typescript::parser::TypeScriptParser::new(&l), job) }
        "typst" => { let l = oak_typst::language::TypstLanguage::default(); run_language::<oak_typst::language::TypstLanguage, _, _>(&oak_typst::lexer::TypstLexer::new(&l), &oak_typst::parser::TypstParser::new(&l), job) }
        "vala" => { let l = oak_vala::language::ValaLanguage::default(); run_language::<oak_vala::language::ValaLanguage, _, _>(&oak_vala::lexer::ValaLexer::new(&l), &oak_vala::parser::ValaParser::new(&l), job) }
        "valkyrie" => { let l = oak_valkyrie::language::ValkyrieLanguage::default(); run_language::<oak_valkyrie::language::ValkyrieLanguage, _, _>(&oak_valkyrie::lexer::ValkyrieLexer::new(&l), &oak_valkyrie::parser::ValkyrieParser::new(&l), job) }
        "vampire" => { let l = oak_vampire::language::VampireLanguage::default(); run_language::<oak_vampire::language::VampireLanguage, _, _>(&oak_vampire::lexer::VampireLexer::new(&l), &oak_vampire::parser::VampireParser::new(&l), job) }
        "verilog" => { let l = oak_verilog::language::VerilogLanguage::default(); run_language::<oak_verilog::language::VerilogLanguage, _, _>(&oak_verilog::lexer::VerilogLexer::new(&l), &oak_verilog::parser::VerilogParser::new(&l), job) }
        "vhdl" => { let l = oak_vhdl::language::VhdlLanguage::default(); run_language::<oak_vhdl::language::VhdlLanguage, _, _>(&oak_vhdl::lexer::VhdlLexer::new(&l), &oak_vhdl::parser::VhdlParser::new(&l), job) }
        "vlang" => { let l = oak_vlang::language::VLangLanguage::default(); run_language::<oak_vlang::language::VLangLanguage, _, _>(&oak_vlang::lexer::VLangLexer::new(&l), &oak_vlang::parser::VLangParser::new(&l), job) }
        "voc" => { let l = oak_voc::language::VocLanguage::default(); run_language::<oak_voc::language::VocLanguage, _, _>(&oak_voc::lexer::VocLexer::new(&l), &oak_voc::parser::VocParser::new(&l), job) }
        "voml" => { let l = oak_voml::language::VomlLanguage::default(); run_language::<oak_voml::language::VomlLanguage, _, _>(&oak_voml::lexer::VomlLexer::new(&l), &oak_voml::parser::VomlParser::new(&l), job) }
        "von" => { let l = oak_von::language::VonLanguage::default(); run_language::<oak_von::language::VonLanguage, _, _>(&oak_von::lexer::VonLexer::new(&l), &oak_von::parser::VonParser::new(&l), job) }
        "wat" => { let l = oak_wat::language::WatLanguage::default(); run_language::<oak_wat::language::WatLanguage, _, _>(&oak_wat::lexer::WatLexer::new(&l), &oak_wat::parser::WatParser::new(&l), job) }
        "wgsl" => { let l = oak_wgsl::language::WgslLanguage::default(); run_language::<oak_wgsl::language::WgslLanguage, _, _>(&oak_wgsl::lexer::WgslLexer::new(&l), &oak_wgsl::parser::WgslParser::new(&l), job) }
        "wit-component" => { let l = oak_wit::language::WitLanguage::default(); run_language::<oak_wit::language::WitLanguage, _, _>(&oak_wit::lexer::WitLexer::new(&l), &oak_wit::parser::WitParser::new(&l), job) }
        "wolfram" => { let l = oak_wolfram::language::WolframLanguage::default(); run_language::<oak_wolfram::language::WolframLanguage, _, _>(&oak_wolfram::lexer::WolframLexer::new(&l), &oak_wolfram::parser::WolframParser::new(&l), job) }
        "xml" => { let l = oak_xml::language::XmlLanguage::default(); run_language::<oak_xml::language::XmlLanguage, _, _>(&oak_xml::lexer::XmlLexer::new(&l), &oak_xml::parser::XmlParser::new(&l), job) }
        "yaml" => { let l = oak_yaml::language::YamlLanguage::default(); run_language::<oak_yaml::language::YamlLanguage, _, _>(&oak_yaml::lexer::YamlLexer::new(&l), &oak_yaml::parser::YamlParser::new(&l), job) }
        "zig" => { let l = oak_zig::language::ZigLanguage::default(); run_language::<oak_zig::language::ZigLanguage, _, _>(&oak_zig::lexer::ZigLexer::new(&l), &oak_zig::parser::ZigParser::new(&l), job) }
        x => panic!("language {x}"),
    }
}
