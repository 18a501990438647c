From 03cba7277deb0a515ee40c7069ac43c0ee9b4881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 01/85] fix: find implicit edulint.toml/.edulint.toml
 configuration files

The file name was compared with the tuple of names, so the documented implicit
configuration files were never found.
---
 edulint/config/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 74932aa..4ad5547 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -342,7 +342,7 @@ def search_for_config_in_parents(path):
     path = (path.parent if path.is_file() else path).absolute()
     while path.parent != path:
         for elem in path.iterdir():
-            if elem.name == IMPLICIT_CONFIG_FILENAMES:
+            if elem.name in IMPLICIT_CONFIG_FILENAMES:
                 return str(path / elem)
         path = path.parent
     return None
-- 
2.43.0


From 847f38acd2baccb2f7467429492c32a3b0131a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 02/85] fix: keep the letter case of pylint arguments

Resolving enable/disable all lowercased every pylint argument, changing the
meaning of regular expressions, names and paths in them.
---
 edulint/config/config.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 4ad5547..c3a450b 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -156,17 +156,17 @@ class Config:
         result = []
         all_set, enable = False, False
         for arg in reversed(pylint_args):
-            arg = arg.lower()
-            if arg == "--enable=noop":
+            lower_arg = arg.lower()
+            if lower_arg == "--enable=noop":
                 pass
-            elif arg in ("--disable=all", "--enable=all"):
+            elif lower_arg in ("--disable=all", "--enable=all"):
                 if all_set:
                     continue
                 all_set = True
-                enable = arg == "--enable=all"
+                enable = lower_arg == "--enable=all"
             elif all_set and (
-                (arg.startswith("--disable") and enable)
-                or (arg.startswith("--enable") and not enable)
+                (lower_arg.startswith("--disable") and enable)
+                or (lower_arg.startswith("--enable") and not enable)
             ):
                 continue
             result.append(arg)
-- 
2.43.0


From 33cb2baa429a79d10fe1e6d96ea7b1a8a0ef0a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 03/85] fix: do not crash on malformed values in configuration

Wrongly typed translation tables, non-string list items and unbalanced quotes
in in-file configuration are reported as warnings like other malformed values.
---
 edulint/config/config.py | 11 +++++++----
 edulint/config/utils.py  |  3 ++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index c3a450b..6051fd0 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -245,7 +245,10 @@ def extract_args(path: str) -> List[str]:
             edmatch = edulint_re.match(line)
             if edmatch:
                 raw_args = line[edmatch.end() :]
-                result.extend(shlex.split(raw_args))
+                try:
+                    result.extend(shlex.split(raw_args))
+                except ValueError as e:
+                    logger.warning("invalid in-file configuration {args}: {e}", args=raw_args, e=e)
 
             ibmatch = ib111_re.match(line)
             if ibmatch:
@@ -393,9 +396,9 @@ def parse_config_file(
     this_file_lang_translations = {}
     for name, val in config_dict.items():
         if name == OPTION_SETS_LABEL:
-            this_file_option_sets = parse_option_sets(val)
+            this_file_option_sets = parse_option_sets(val) or {}
         elif name == LANG_TRANSLATIONS_LABEL:
-            this_file_lang_translations = parse_lang_translations(val)
+            this_file_lang_translations = parse_lang_translations(val) or {}
         elif name == DEFAULT_ENABLER_LABEL:
             continue
         else:
@@ -405,7 +408,7 @@ def parse_config_file(
             ):  # config is handled as the first option
                 continue
 
-            if option == Option.LANGUAGE_FILE:
+            if option == Option.LANGUAGE_FILE and isinstance(val, str):
                 val = get_path_relative_to(val, path)
 
             if not isinstance(val, dict):
diff --git a/edulint/config/utils.py b/edulint/config/utils.py
index d0ca572..baec014 100644
--- a/edulint/config/utils.py
+++ b/edulint/config/utils.py
@@ -19,7 +19,8 @@ def config_file_val_to_str(option: Union[Option, str], val: Any) -> Optional[str
     if isinstance(val, str):
         return val
     if isinstance(val, list):
-        return ",".join(val)
+        str_vals = [config_file_val_to_str(option, v) for v in val]
+        return ",".join(v for v in str_vals if v is not None)
     if isinstance(val, tuple):
         key, value = val
         value = config_file_val_to_str(option, value)
-- 
2.43.0


From 21e188b1eb2eed41207d176bde2e9df5c9440996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 04/85] fix: report cyclic configuration inheritance instead of
 overflowing the stack

---
 edulint/config/config.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 6051fd0..3476145 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -368,7 +368,7 @@ def parse_infile_config(path: str, option_parses: Dict[Option, OptionParse]) ->
 
 
 def parse_config_file(
-    path: str, option_parses: Dict[Option, OptionParse]
+    path: str, option_parses: Dict[Option, OptionParse], inheriting: Tuple[str, ...] = ()
 ) -> Optional[Tuple[Config, OptionSets, LangTranslations]]:
     def parse_base_config(config_dict: Dict[str, Any]) -> Optional[Config]:
         rec_config = config_dict.get(Option.CONFIG_FILE.to_name(), BASE_CONFIG)
@@ -376,7 +376,11 @@ def parse_config_file(
             print_invalid_type_message(Option.CONFIG_FILE, rec_config)
             rec_config = BASE_CONFIG
         rec_config_abspath = get_path_relative_to(rec_config, path)
-        return parse_config_file(rec_config_abspath, option_parses)
+        return parse_config_file(rec_config_abspath, option_parses, inheriting + (path,))
+
+    if path in inheriting:
+        logger.error("config file '{f}' inherits from itself", f=path)
+        return None
 
     config_dict = load_toml_file(path)
     if config_dict is None:
-- 
2.43.0


From 611467c8031f827d3605ad3e42e0a418bfbdf2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 05/85] fix: keep files apart whose in-file configurations
 differ only in explicit defaults or order

---
 edulint/config/config.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 3476145..8fba481 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -506,24 +506,24 @@ def _ignore_infile(config: Config) -> bool:
 
 def _parse_infile_configs(
     files_or_dirs: List[str], cmd_config: Config, option_parses: Dict[Option, OptionParse]
-) -> Dict[ImmutableConfig, Tuple[Config, List[str]]]:
+) -> Dict[Tuple[Tuple[Option, ImmutableT], ...], Tuple[Config, List[str]]]:
 
-    def add_to_result(result, config, path, iconfig=None):
-        iconfig = config.to_immutable() if iconfig is None else iconfig
-        if iconfig not in result:
-            result[iconfig] = (config, [path])
-        else:
-            result[iconfig][1].append(path)
+    def get_key(config: Config) -> Tuple[Tuple[Option, ImmutableT], ...]:
+        # an option explicitly set to its default and the order of options both
+        # matter once the config gets combined with others
+        return tuple(
+            (arg.option, Config._to_immutable(arg.val)) for arg in config.config if arg is not None
+        )
 
     def aggregate_subresults(paths):
         result = {}
         for path in paths:
             subresult = _parse_infile_configs_rec(path)
-            for iconfig, (config, subpaths) in subresult.items():
-                if iconfig not in result:
-                    result[iconfig] = (config, subpaths)
+            for key, (config, subpaths) in subresult.items():
+                if key not in result:
+                    result[key] = (config, subpaths)
                 else:
-                    result[iconfig][1].extend(subpaths)
+                    result[key][1].extend(subpaths)
         return result
 
     def _parse_infile_configs_rec(path: str):
@@ -532,19 +532,19 @@ def _parse_infile_configs(
                 return {}
 
             infile_config = parse_infile_config(path, option_parses)
-            return {infile_config.to_immutable(log_unknown_groups=False): (infile_config, [path])}
+            return {get_key(infile_config): (infile_config, [path])}
 
         result = aggregate_subresults([os.path.join(path, name) for name in os.listdir(path)])
 
         if len(result) != 1:
             return result
 
-        iconfig, (config, _paths) = list(result.items())[0]
-        return {iconfig: (config, [path])}
+        key, (config, _paths) = list(result.items())[0]
+        return {key: (config, [path])}
 
     if _ignore_infile(cmd_config):
         default_config = _get_default_config(option_parses)[0]
-        return {default_config.to_immutable(): (default_config, files_or_dirs)}
+        return {get_key(default_config): (default_config, files_or_dirs)}
 
     return aggregate_subresults(files_or_dirs)
 
@@ -562,7 +562,10 @@ def get_config_many(
     if cmd_config_path is not None:
         config_paths = {cmd_config_path}
     else:
-        config_paths = {iconfig[Option.CONFIG_FILE] for iconfig in infile_configs.keys()}
+        config_paths = {
+            infile_config.get_last_value(Option.CONFIG_FILE, use_default=True)
+            for infile_config, _paths in infile_configs.values()
+        }
 
     config_file_results = {
         config_path: parse_config_file(config_path, option_parses) for config_path in config_paths
-- 
2.43.0


From 787de6a707e8da9d8b078bcf52e5863f9c49b4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 06/85] fix: do not stack AST patches with each run in the same
 process

---
 edulint/linting/analyses/patcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edulint/linting/analyses/patcher.py b/edulint/linting/analyses/patcher.py
index aa280e1..8d5893d 100644
--- a/edulint/linting/analyses/patcher.py
+++ b/edulint/linting/analyses/patcher.py
@@ -35,6 +35,8 @@ def run_analyses(ast: astroid.nodes.Module):
 
 def patch_ast_transforms():
     old_get_ast = PyLinter.get_ast
+    if hasattr(old_get_ast, "runs_edulint_analyses"):
+        return
 
     def new_get_ast(self, filepath, modname, data=None):
         ast = old_get_ast(self, filepath, modname, data)
@@ -44,6 +46,7 @@ def patch_ast_transforms():
         run_analyses(ast)
         return ast
 
+    new_get_ast.runs_edulint_analyses = True
     PyLinter.get_ast = new_get_ast
     astroid.raw_building._CONST_PROXY[AunifyVar] = None
 
-- 
2.43.0


From 38f878ec8e7194fdfa09fd6e8254befa895bedb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 07/85] fix: report on changed files anew when checked again in
 the same process

---
 edulint/linting/linting.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index 70970c6..8143a5f 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -186,6 +186,20 @@ def lint_flake8(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
     )
 
 
+def forget_parsed_modules() -> None:
+    """Makes astroid parse modules anew in the next run, as they may have changed since."""
+    from astroid import MANAGER
+    from astroid.inference_tip import clear_inference_tip_cache
+    from astroid.interpreter._import.spec import _find_spec
+
+    for name, module in list(MANAGER.astroid_cache.items()):
+        if name and module.file is not None:
+            del MANAGER.astroid_cache[name]
+    MANAGER._mod_file_cache.clear()
+    _find_spec.cache_clear()
+    clear_inference_tip_cache()
+
+
 def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Problem]:
     pylint_args = ["--recursive=y"] + list(config[Option.PYLINT]) + files_or_dirs
 
@@ -206,6 +220,7 @@ def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
         return_code = e.code
 
     sys.stderr = old_stderr
+    forget_parsed_modules()
 
     return process_results(
         Linter.PYLINT,
-- 
2.43.0


From 05eb572f6b08ea1970c3cb7d8a2078886bb532fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 08/85] fix: fail when a linter does not accept its arguments
 and keep standard streams intact

---
 edulint/edulint.py         |  2 +-
 edulint/linting/linting.py | 17 ++++++++++-------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/edulint/edulint.py b/edulint/edulint.py
index c0ccff4..c63f856 100755
--- a/edulint/edulint.py
+++ b/edulint/edulint.py
@@ -286,7 +286,7 @@ def print_message_explanations(args):
     return 0
 
 
-@logger.catch
+@logger.catch(onerror=lambda _: sys.exit(2))
 def main() -> int:
     setup_logger()
     option_parses = get_option_parses()
diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index 8143a5f..82d12d4 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -131,7 +131,7 @@ def process_results(
         logger.error(errs)
 
     if (linter == Linter.FLAKE8 and return_code not in (0, 1)) or (
-        linter == Linter.PYLINT and return_code == 32
+        linter == Linter.PYLINT and return_code not in (None, 0)
     ):
         raise EduLintLinterFailedException(f"{linter} exited with return code {return_code}")
 
@@ -156,6 +156,7 @@ def lint_edulint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Prob
 
 
 def lint_flake8(files_or_dirs: List[str], config: ImmutableConfig) -> List[Problem]:
+    from flake8.exceptions import EarlyQuit, ExecutionError
     from flake8.main.application import Application
 
     new_stdout = StringIO()
@@ -171,9 +172,11 @@ def lint_flake8(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
         return_code = 0
     except SystemExit as e:
         return_code = e.code
-
-    sys.stdout = old_stdout
-    sys.stderr = old_stderr
+    except (ExecutionError, EarlyQuit) as e:
+        raise EduLintLinterFailedException(f"{Linter.FLAKE8} failed: {e}") from e
+    finally:
+        sys.stdout = old_stdout
+        sys.stderr = old_stderr
 
     return process_results(
         Linter.FLAKE8,
@@ -218,9 +221,9 @@ def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
         return_code = 0
     except SystemExit as e:
         return_code = e.code
-
-    sys.stderr = old_stderr
-    forget_parsed_modules()
+    finally:
+        sys.stderr = old_stderr
+        forget_parsed_modules()
 
     return process_results(
         Linter.PYLINT,
-- 
2.43.0


From a5071a2253177833472a5c833a903e6869b9c2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 09/85] fix: read source files in the encoding they declare

---
 edulint/config/config.py               |  9 +++++++--
 edulint/config/utils.py                | 10 ++++++++++
 edulint/linting/nonparsing_checkers.py |  3 ++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 8fba481..ab3e6fc 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -22,7 +22,12 @@ from edulint.config.language_translations import (
     parse_lang_translations,
     parse_lang_file,
 )
-from edulint.config.utils import print_invalid_type_message, config_file_val_to_str, add_enabled
+from edulint.config.utils import (
+    print_invalid_type_message,
+    config_file_val_to_str,
+    add_enabled,
+    get_source_encoding,
+)
 from typing import Dict, List, Optional, Tuple, Iterator, Any
 
 from dataclasses import dataclass
@@ -238,7 +243,7 @@ def extract_args(path: str) -> List[str]:
     ib111_re = re.compile(r".*from\s+ib111\s+import.+week_(\d+)", re.IGNORECASE)
 
     result: List[str] = []
-    with open(path, encoding="utf-8") as f:
+    with open(path, encoding=get_source_encoding(path), errors="replace") as f:
         for i, line in enumerate(f):
             line = line.strip()
 
diff --git a/edulint/config/utils.py b/edulint/config/utils.py
index baec014..4648aad 100644
--- a/edulint/config/utils.py
+++ b/edulint/config/utils.py
@@ -1,3 +1,4 @@
+import tokenize
 from typing import Any, Optional, Union, Dict
 from loguru import logger
 
@@ -43,3 +44,12 @@ def add_enabled(enabler_name: str, enablers: Dict[str, str], option: Option, val
         extract("--extend-select=")
     if option == Option.IGNORE_INFILE_CONFIG_FOR:
         enablers["EDL001"] = enabler_name
+
+
+def get_source_encoding(path: str) -> str:
+    """Returns the encoding the Python source file declares."""
+    try:
+        with tokenize.open(path) as f:
+            return f.encoding
+    except (OSError, SyntaxError):
+        return "utf-8"
diff --git a/edulint/linting/nonparsing_checkers.py b/edulint/linting/nonparsing_checkers.py
index 9d94afc..b3d93c9 100644
--- a/edulint/linting/nonparsing_checkers.py
+++ b/edulint/linting/nonparsing_checkers.py
@@ -5,6 +5,7 @@ import os
 
 from edulint.linters import Linter
 from edulint.options import Option
+from edulint.config.utils import get_source_encoding
 from edulint.linting.problem import Problem
 
 
@@ -52,7 +53,7 @@ def report_infile_config(
     results = []
     ib111_re = re.compile(r".*from\s+ib111\s+import", re.IGNORECASE)
     for file_path in to_file_paths(files_or_dirs):
-        with open(file_path, encoding="utf-8") as f:
+        with open(file_path, encoding=get_source_encoding(file_path), errors="replace") as f:
             for i, line in enumerate(f, 1):
                 for pattern in patterns:
                     match = pattern.match(line)
-- 
2.43.0


From 3174b2011ef3e690f7fb5ae9ccf1660563ca0223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 10/85] fix: do not carry translations of one configuration
 over to another sharing its language file

---
 edulint/config/config.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index ab3e6fc..a21b6fe 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -602,12 +602,11 @@ def get_config_many(
         iconfig = config.to_immutable(option_sets)
         language_file = iconfig[Option.LANGUAGE_FILE]
         if language_file is not None:
-            lang_file_translations = lang_file_results.get(
-                language_file, parse_lang_file(iconfig[Option.LANGUAGE_FILE])
-            )
+            if language_file not in lang_file_results:
+                lang_file_results[language_file] = parse_lang_file(language_file)
+            lang_file_translations = lang_file_results[language_file]
             if lang_file_translations is not None:
                 lang_translations = {**lang_translations, **lang_file_translations}
-                lang_file_results[language_file] = lang_translations
 
         result.append((paths, iconfig, lang_translations))
     return result
-- 
2.43.0


From 7174ae682aa093ca4b23cbbafd49049ed38c90f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 11/85] fix: recognize all placeholders of messages and survive
 invalid templates when translating

---
 edulint/config/language_translations.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index bd8f3d0..b882209 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -17,7 +17,8 @@ from edulint.linting import checkers as edulint_checkers
 
 
 def to_pattern(message: str):
-    return re.sub("%[rsd]", "(.*)", re.escape(message), flags=re.IGNORECASE)
+    placeholder = r"%(?:\\\(\w+\\\))?(?:\\#)?\d*[rsdix]"
+    return re.sub(placeholder, "(.*)", re.escape(message), flags=re.IGNORECASE).replace("%%", "%")
 
 
 def checker_classes(module):
@@ -98,10 +99,19 @@ class Translation:
         if pattern is None or "(.*)" not in pattern:
             return self.translation
 
-        match = re.match(pattern, message, flags=re.IGNORECASE)
+        match = re.match(pattern, message, flags=re.IGNORECASE | re.DOTALL)
         if not match:
             return self.translation
-        return self.translation.format(*self.translate_extracts(match.groups()))
+        try:
+            return self.translation.format(*self.translate_extracts(match.groups()))
+        except (IndexError, KeyError, ValueError, AttributeError) as e:
+            logger.warning(
+                "invalid translation {translation} of {code}: {e}",
+                translation=self.translation,
+                code=code,
+                e=e,
+            )
+            return message
 
 
 LangTranslations = Dict[str, Translation]
-- 
2.43.0


From 5829e3ec5f3cc517df87b6ccb27c37e1f58089f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 12/85] fix: drop invalid translations of extracts instead of
 failing on them

---
 edulint/config/language_translations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index b882209..988abec 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -133,6 +133,7 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
             type=type(translated_extracts),
         )
         translated_extracts = {}
+    valid_extracts: Dict[str, Dict[str, Dict[str, str]]] = {}
     for id_, val in translated_extracts.items():
         if not isinstance(val, dict):
             logger.warning(
@@ -165,6 +166,9 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
                         id_=id_,
                         type=type(translated),
                     )
+                else:
+                    valid_mapping = valid_extracts.setdefault(id_, {}).setdefault(order, {})
+                    valid_mapping[extract] = translated
 
     lang_translations = {}
     for id_, translation in raw_lang_translations.items():
@@ -178,7 +182,7 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
             )
             continue
 
-        lang_translations[id_] = Translation(translation, translated_extracts.get(id_, {}))
+        lang_translations[id_] = Translation(translation, valid_extracts.get(id_, {}))
 
     return lang_translations
 
-- 
2.43.0


From ce0f8bcb1117d43b26db8b54da44da05682481c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 13/85] fix: fill in translations of reworded disallowed-name
 messages

---
 edulint/config/language_translations.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index 988abec..3ddcefc 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -47,8 +47,16 @@ def get_pylint_patterns():
 
 def get_patterns():
     return {
-        code: to_pattern(message)
-        for code, message in {**get_pylint_patterns(), **get_edulint_patterns(), **FLAKE8}.items()
+        **{
+            code: to_pattern(message)
+            for code, message in {
+                **get_pylint_patterns(),
+                **get_edulint_patterns(),
+                **FLAKE8,
+            }.items()
+        },
+        # may be reworded by a tweaker
+        "C0104": 'Disallowed (?:name|single-character variable name) "(.*)"',
     }
 
 
-- 
2.43.0


From 6616ca1f188beba737a5ef42b1b9f2b9a51da02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 14/85] fix: never leave or use partially written remote
 configuration, use empty one

---
 edulint/config/file_config.py | 36 ++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/edulint/config/file_config.py b/edulint/config/file_config.py
index e94b445..6d9b240 100644
--- a/edulint/config/file_config.py
+++ b/edulint/config/file_config.py
@@ -135,7 +135,7 @@ class CachedHTTPGet:
         """
 
         cached_version: str = cls._read_version_from_disk(url, max_age_in_seconds=max_cache_time)
-        if cached_version:
+        if cached_version is not None:
             return cached_version
 
         try:
@@ -158,7 +158,7 @@ class CachedHTTPGet:
         cached_version: str = cls._read_version_from_disk(
             url, max_age_in_seconds=max_cache_time_when_offline
         )
-        if cached_version:
+        if cached_version is not None:
             return cached_version
         raise FileNotFoundError(
             f"request for external config '{url}' failed -- maybe you are offline or the URL is incorrect."
@@ -191,21 +191,25 @@ class CachedHTTPGet:
         base_filepath = cls._get_filepath_from_source(source)
         return base_filepath.with_suffix(base_filepath.suffix + ".metadata")
 
+    @staticmethod
+    def _write_file(path: Path, content: str) -> None:
+        # other processes must not see, and a crash must not leave, partial content
+        tmp_path = path.with_name(f"{path.name}.{os.getpid()}.tmp")
+        try:
+            with open(tmp_path, "w", encoding="utf8", newline="") as f:
+                f.write(content)
+            os.replace(tmp_path, path)
+        except BaseException:
+            tmp_path.unlink(missing_ok=True)
+            raise
+
     @classmethod
     def _write_version_to_disk(cls, source: str, content: str):
+        metadata = {"timestamp": cls._get_timestamp(), "source": source}
         try:
-            with open(cls._get_filepath_from_source(source), "w", encoding="utf8") as f:
-                # security: writing arbitrary content from web is not great, but at least it's written as text
-                f.write(content)
-            with open(cls._get_metadata_filepath(source), "w", encoding="utf8") as f:
-                json.dump(
-                    {
-                        "timestamp": cls._get_timestamp(),
-                        "source": source,
-                    },
-                    f,
-                    indent=4,
-                )
+            # security: writing arbitrary content from web is not great, but at least it's written as text
+            cls._write_file(cls._get_filepath_from_source(source), content)
+            cls._write_file(cls._get_metadata_filepath(source), json.dumps(metadata, indent=4))
         except Exception as e:
             logger.error("saving cache file for configuration failed:\n {e}", e=e)
 
@@ -219,7 +223,9 @@ class CachedHTTPGet:
             if metadata["timestamp"] + max_age_in_seconds <= cls._get_timestamp():  # todo: int
                 return None
 
-            with open(cls._get_filepath_from_source(source), "r", encoding="utf8") as f:
+            with open(
+                cls._get_filepath_from_source(source), "r", encoding="utf8", newline=""
+            ) as f:
                 return f.read()
         except FileNotFoundError:
             return None
-- 
2.43.0


From 85e7a200f45d6b67362abce61f45105fadd24a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 15/85] fix: show updated explanations, keep valid ones and
 respect disabled updates

---
 edulint/edulint.py      | 10 +++++++---
 edulint/explanations.py | 26 +++++++++++++++++++++-----
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/edulint/edulint.py b/edulint/edulint.py
index c63f856..6b7ce1b 100755
--- a/edulint/edulint.py
+++ b/edulint/edulint.py
@@ -230,7 +230,9 @@ def check_code(
     return _check_code(files_or_dirs, options, get_option_parses())
 
 
-def get_message_explanations(message_ids: Optional[List[str]] = None) -> Dict[str, Dict[str, str]]:
+def get_message_explanations(
+    message_ids: Optional[List[str]] = None, disable_explanations_update: bool = False
+) -> Dict[str, Dict[str, str]]:
     """
     Returns explanations for given message ids. If an explanation is requested
     for a message id that does not have an explanation, the warning is
@@ -239,13 +241,15 @@ def get_message_explanations(message_ids: Optional[List[str]] = None) -> Dict[st
     :param message_ids: An optional list of message ids to receive explanations
       for. If None is passed, returns all available explanations.
     :type message_ids: List[str] | None
+    :param disable_explanations_update: Do not try to update the explanations.
+    :type disable_explanations_update: bool
     :returns: A dictionary with message ids as keys and explanations as values.
       Each explanations is a dictionary with optional keys "why" and "examples".
       "Why" Contains rationale for why the pattern should be avoided. "Examples"
       contains examples of erroneous and corrected code.
     :rtype: Dict[str, Dict[str, str]]
     """
-    explanations = get_explanations()
+    explanations = get_explanations(disable_explanations_update)
     message_ids = message_ids if message_ids is not None else explanations.keys()
 
     m_id_expls = {}
@@ -262,7 +266,7 @@ def print_message_explanations(args):
     message_ids = (
         args.message_ids if not any(id_.lower() == "all" for id_ in args.message_ids) else None
     )
-    m_id_expls = get_message_explanations(message_ids)
+    m_id_expls = get_message_explanations(message_ids, args.disable_explanations_update)
     if args.json:
         data = {"explanations": m_id_expls}
         print(json.dumps(data, indent=2))
diff --git a/edulint/explanations.py b/edulint/explanations.py
index a35b470..74c32f9 100644
--- a/edulint/explanations.py
+++ b/edulint/explanations.py
@@ -39,14 +39,24 @@ def get_explanations(disable_explanations_update: bool = False) -> Dict[str, Dic
     return parsed_toml
 
 
+def _parse_explanations(text: str) -> Dict[str, Dict[str, str]]:
+    explanations = tomli.loads(text)
+    if not explanations or not all(
+        isinstance(expl, dict) and all(isinstance(val, str) for val in expl.values())
+        for expl in explanations.values()
+    ):
+        raise ValueError("explanations do not have the expected format")
+    return explanations
+
+
 def _load_updated_explanations() -> Optional[Dict[str, str]]:
     path_for_online_file = Path(EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH)
     if not path_for_online_file.exists():
         return
     try:
-        with open(EXPLANATIONS_PIP_DISTRIBUTED_FILEPATH, "rb") as f:
-            return tomli.load(f)
-    except:
+        with open(path_for_online_file, "r", encoding="utf8", newline="") as f:
+            return _parse_explanations(f.read())
+    except Exception:
         logger.warning("Updated explanations seem to be corrupted. Falling back to those distributed with the pip package.")
 
 
@@ -75,8 +85,14 @@ def _thread_update_explanations(ttl: int = 600):
         if resp.status_code != 200:
             return
 
-        with open(EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH, "w", encoding="utf8") as f:
-            f.write(resp.text)
+        _parse_explanations(resp.text)  # do not replace valid explanations with invalid ones
+        tmp_path = f"{EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH}.{os.getpid()}.tmp"
+        try:
+            with open(tmp_path, "w", encoding="utf8", newline="") as f:
+                f.write(resp.text)
+            os.replace(tmp_path, EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH)
+        finally:
+            Path(tmp_path).unlink(missing_ok=True)
     except Exception as e:
         logger.debug(f"Update of explanations failed with {e}. This can ocassionaly hapen for some processes due to race condition.")
 
-- 
2.43.0


From 0326ea13b108046e74568033b210b6e4fa89ff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 16/85] fix: give no update notice when the latest version is
 unknown, survive damaged version information

---
 edulint/versions/version_checker.py | 44 ++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/edulint/versions/version_checker.py b/edulint/versions/version_checker.py
index 1bbafbc..3742ae4 100644
--- a/edulint/versions/version_checker.py
+++ b/edulint/versions/version_checker.py
@@ -1,4 +1,4 @@
-from typing import Optional, Tuple
+from typing import Any, Dict, Optional, Tuple
 import os
 import json
 from dataclasses import dataclass
@@ -53,11 +53,29 @@ class PackageInfoManager:
         return filepath 
 
     @classmethod
-    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
-        with open(cls._package_info_path(), "r", encoding="utf8") as f:
-            data = json.load(f)
+    def _load_data(cls) -> Dict[str, Any]:
+        try:
+            with open(cls._package_info_path(), "r", encoding="utf8") as f:
+                data = json.load(f)
+        except ValueError:  # damaged file, start anew
+            return {}
+        return data if isinstance(data, dict) else {}
 
-        package_info = PackageInfo.from_dict(data.get(package_name, {}))
+    @staticmethod
+    def _get_package_info(data: Dict[str, Any], package_name: str) -> PackageInfo:
+        raw = data.get(package_name)
+        if (
+            isinstance(raw, dict)
+            and isinstance(raw.get("version"), (str, type(None)))
+            and isinstance(raw.get("last_update_started"), int)
+        ):
+            return PackageInfo(raw.get("version"), raw["last_update_started"])
+        return PackageInfo()
+
+    @classmethod
+    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
+        data = cls._load_data()
+        package_info = cls._get_package_info(data, package_name)
 
         if version:
             package_info.version = version
@@ -72,18 +90,15 @@ class PackageInfoManager:
 
     @classmethod
     def _get_package_info_locally(cls, package_name: str) -> PackageInfo:
-        with open(cls._package_info_path(), "r", encoding="utf8") as f:
-            data = json.load(f)
-            package_info = PackageInfo.from_dict(data.get(package_name, {}))
-            return package_info
+        return cls._get_package_info(cls._load_data(), package_name)
 
     @classmethod
     def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
-        package_info = cls._get_package_info_locally(package_name)
-        if current_timestamp() < package_info.last_update_started + ttl:
-            return package_info.version  # The might be None if the previous request didn't finish yet or if it failed.
-
         try:
+            package_info = cls._get_package_info_locally(package_name)
+            if current_timestamp() < package_info.last_update_started + ttl:
+                return package_info.version  # The might be None if the previous request didn't finish yet or if it failed.
+
             cls._save_package_info_locally(package_name, last_update_started=current_timestamp())
             versions = pypi_helper.get_versions(package_name)
             sorted_versions = list(sorted(versions, key = lambda x: (x.major, x.minor, x.micro)))
@@ -101,6 +116,9 @@ class PackageInfoManager:
 
         latest_version = cls.get_latest_version(package_name, ttl)
         
+        if latest_version is None:  # unable to determine latest version
+            return False
+
         return local_package_version != latest_version  # This presumes local version is never higher than pypi version
 
 
-- 
2.43.0


From 927fa661931ccd2179829278fe23f9e0c216d0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 17/85] fix: report on files given by any spelling of their
 path, including symbolic links

---
 edulint/linting/linting.py | 40 ++++++++++++++------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index 82d12d4..3af171f 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -45,8 +45,13 @@ def flake8_to_problem(enablers: Dict[str, str], raw: ProblemJson) -> Problem:
     )
 
 
+def is_same_or_inside(path: str, file_or_dir: str) -> bool:
+    abs_path, abs_file_or_dir = Path(os.path.abspath(path)), Path(os.path.abspath(file_or_dir))
+    return abs_path == abs_file_or_dir or abs_file_or_dir in abs_path.parents
+
+
 def is_pylint_out_of_file_problem(path):
-    return any(segment in path.lower() for segment in ("command line", "configuration file"))
+    return path in ("Command line", "Command line or configuration file")
 
 
 def pylint_to_problem(
@@ -69,23 +74,10 @@ def pylint_to_problem(
         if is_pylint_out_of_file_problem(path):
             return path
 
-        path = Path(path)
-        abs_path = path.resolve()
-        for fd in [Path(path) for path in files_or_dirs]:
-            abs_fd = fd.resolve()
-            if abs_fd == abs_path or abs_fd in abs_path.parents:
-                if fd.is_absolute():
-                    return abs_path
-                else:
-                    cwd_parts = Path.cwd().parts
-                    abs_path_parts = abs_path.parts
-
-                    for i in range(min(len(cwd_parts), len(abs_path_parts))):
-                        if cwd_parts[i] != abs_path_parts[i]:
-                            break
-
-                    return Path(*[".."] * (len(cwd_parts) - i), *abs_path_parts[i:])
-        assert False, f"unreachable, but {path}"
+        for file_or_dir in files_or_dirs:
+            if is_same_or_inside(path, file_or_dir):
+                return os.path.abspath(path) if os.path.isabs(file_or_dir) else os.path.relpath(path)
+        return path  # e.g., pylint's configuration file
 
     code_enabler = enablers.get(raw["messageId"])
     symbol_enabler = enablers.get(raw["symbol"])
@@ -151,7 +143,8 @@ def process_results(
 def lint_edulint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Problem]:
     ignored_infile = set(config[Option.IGNORE_INFILE_CONFIG_FOR])
     if len(ignored_infile) > 0:
-        return report_infile_config(files_or_dirs, ignored_infile, config.enablers)
+        problems = report_infile_config(files_or_dirs, ignored_infile, config.enablers)
+        return [problem.set_path(get_proper_path(problem.path)) for problem in problems]
     return []
 
 
@@ -276,17 +269,14 @@ def lint_one(filename: str, config: Tuple[ImmutableConfig, LangTranslations]) ->
 
 
 def sort(files_or_dirs: List[str], problems: List[Problem]) -> List[Problem]:
-    files_or_dirs = [Path(path) for path in files_or_dirs]
-
     def get_file_or_dir_index(path: str):
         if is_pylint_out_of_file_problem(path):
             return -1
 
-        path = Path(path)
-        for i, fd in enumerate(files_or_dirs):
-            if fd == path or fd in path.parents:
+        for i, file_or_dir in enumerate(files_or_dirs):
+            if is_same_or_inside(path, file_or_dir):
                 return i
-        assert False, "unreachable"
+        return -1
 
     problems.sort(
         key=lambda problem: (
-- 
2.43.0


From f5128a08802c8ca4a451f0f3d3a0a0d538641156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 18/85] fix: lint also files in non-package directories inside
 packages

---
 edulint/linting/linting.py | 43 ++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index 3af171f..fcc6d01 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -1,5 +1,5 @@
 from io import StringIO
-from typing import List, Callable, Tuple, Dict, Set, Any
+from typing import List, Callable, Iterator, Tuple, Dict, Set, Any, Sequence
 from edulint.linting.problem import ProblemJson, Problem
 from edulint.linting.nonparsing_checkers import report_infile_config
 from edulint.linting.process_handler import ProcessHandler
@@ -196,12 +196,47 @@ def forget_parsed_modules() -> None:
     clear_inference_tip_cache()
 
 
+def discover_files(
+    files_or_dirs: Sequence[str], is_ignored_dir: Callable[[str], bool]
+) -> Iterator[str]:
+    """
+    Pylint itself neither descends from packages to subdirectories that are not packages, nor to
+    directories whose path starts the same as the path of a package.
+    """
+    for file_or_dir in files_or_dirs:
+        if not os.path.isdir(file_or_dir):
+            yield file_or_dir
+            continue
+
+        for path, dirnames, filenames in os.walk(file_or_dir):
+            if is_ignored_dir(path):
+                dirnames.clear()
+                continue
+
+            for filename in filenames:
+                if filename.endswith((".py", ".pyi")):
+                    yield os.path.join(path, filename)
+
+
 def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Problem]:
-    pylint_args = ["--recursive=y"] + list(config[Option.PYLINT]) + files_or_dirs
+    pylint_args = [
+        "--recursive=y",
+        *config[Option.PYLINT],
+        *files_or_dirs,
+    ]
 
-    from pylint.lint import Run
+    from pylint.lint import PyLinter, Run
+    from pylint.lint.expand_modules import _is_ignored_file
     from pylint.reporters.json_reporter import JSON2Reporter
 
+    class DiscoveringLinter(PyLinter):
+        def _discover_files(self, files_or_modules: Sequence[str]) -> Iterator[str]:
+            ignored = (self.config.ignore, self.config.ignore_patterns, self.config.ignore_paths)
+            return discover_files(files_or_modules, lambda path: _is_ignored_file(path, *ignored))
+
+    class DiscoveringRun(Run):
+        LinterClass = DiscoveringLinter
+
     output = StringIO()
     reporter = JSON2Reporter(output)
 
@@ -210,7 +245,7 @@ def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
     sys.stderr = new_stderr
 
     try:
-        Run(pylint_args, reporter=reporter, exit=False)
+        DiscoveringRun(pylint_args, reporter=reporter, exit=False)
         return_code = 0
     except SystemExit as e:
         return_code = e.code
-- 
2.43.0


From 8f39dcf21c9de978f9b554f8d348ebe223a01bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 19/85] fix: report each problem once even when a file is given
 repeatedly

---
 edulint/edulint.py         | 11 +++++++++--
 edulint/linting/linting.py | 23 +++++++++++++++++++----
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/edulint/edulint.py b/edulint/edulint.py
index 6b7ce1b..d7d06a8 100755
--- a/edulint/edulint.py
+++ b/edulint/edulint.py
@@ -3,7 +3,12 @@ from edulint.option_parses import OptionParse, get_option_parses
 from edulint.config.config import get_config_many, get_cmd_args, ImmutableConfig
 from edulint.config.language_translations import LangTranslations
 from edulint.linting.problem import Problem
-from edulint.linting.linting import lint_many, sort, EduLintLinterFailedException
+from edulint.linting.linting import (
+    lint_many,
+    sort,
+    drop_repeated,
+    EduLintLinterFailedException,
+)
 from edulint.versions.version_checker import PackageInfoManager
 from edulint.explanations import update_explanations, get_explanations
 from edulint.version import version
@@ -167,7 +172,9 @@ def _check_code(
             return None
 
     cmd_args = get_cmd_args(options)
-    file_configs = get_config_many(files_or_dirs, cmd_args, option_parses=option_parses)
+    file_configs = get_config_many(
+        drop_repeated(files_or_dirs), cmd_args, option_parses=option_parses
+    )
 
     try:
         results = lint_many(file_configs)
diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index fcc6d01..707ed7f 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -50,6 +50,18 @@ def is_same_or_inside(path: str, file_or_dir: str) -> bool:
     return abs_path == abs_file_or_dir or abs_file_or_dir in abs_path.parents
 
 
+def drop_repeated(files_or_dirs: List[str]) -> List[str]:
+    """Drops paths that are repeated or covered by another path."""
+    first_spellings = {}
+    for file_or_dir in files_or_dirs:
+        first_spellings.setdefault(Path(os.path.abspath(file_or_dir)), file_or_dir)
+    return [
+        file_or_dir
+        for path, file_or_dir in first_spellings.items()
+        if not any(parent in first_spellings for parent in path.parents)
+    ]
+
+
 def is_pylint_out_of_file_problem(path):
     return path in ("Command line", "Command line or configuration file")
 
@@ -304,14 +316,17 @@ def lint_one(filename: str, config: Tuple[ImmutableConfig, LangTranslations]) ->
 
 
 def sort(files_or_dirs: List[str], problems: List[Problem]) -> List[Problem]:
+    indices: Dict[Path, int] = {}
+    for i, file_or_dir in enumerate(files_or_dirs):
+        indices.setdefault(Path(os.path.abspath(file_or_dir)), i)
+
     def get_file_or_dir_index(path: str):
         if is_pylint_out_of_file_problem(path):
             return -1
 
-        for i, file_or_dir in enumerate(files_or_dirs):
-            if is_same_or_inside(path, file_or_dir):
-                return i
-        return -1
+        path = Path(os.path.abspath(path))
+        found = [indices[p] for p in (path, *path.parents) if p in indices]
+        return min(found, default=-1)
 
     problems.sort(
         key=lambda problem: (
-- 
2.43.0


From f4f0bb3fa5c53a041d28ac12ebeb1164d677264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 20/85] fix: do not use implicit configuration of directories
 only passed through by a relative path

---
 edulint/config/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index a21b6fe..2128964 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -347,7 +347,7 @@ def resolve_ignore_infile_config(parsed: List[UnprocessedArg], config: Config) -
 
 def search_for_config_in_parents(path):
     path = Path(path)
-    path = (path.parent if path.is_file() else path).absolute()
+    path = Path(os.path.abspath(path.parent if path.is_file() else path))
     while path.parent != path:
         for elem in path.iterdir():
             if elem.name in IMPLICIT_CONFIG_FILENAMES:
-- 
2.43.0


From 71abe2c331084fac0a4bcd0d7fb38c983016dedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:17 +0000
Subject: [PATCH 21/85] fix: attribute problems to the highest-precedence
 source that enabled them

---
 edulint/config/config.py   | 12 ++++++++++--
 edulint/config/utils.py    | 14 +++++++++++++-
 edulint/linting/linting.py |  6 ++----
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 2128964..62d0a1d 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -26,6 +26,7 @@ from edulint.config.utils import (
     print_invalid_type_message,
     config_file_val_to_str,
     add_enabled,
+    merge_enablers,
     get_source_encoding,
 )
 from typing import Dict, List, Optional, Tuple, Iterator, Any
@@ -139,7 +140,7 @@ class Config:
         assert lt.option_parses == rt.option_parses
         new = Config(enabler=None, option_parses=lt.option_parses)
         new.config = new._combine(lt.config + rt.config, allowed_combines=(Combine.REPLACE,))
-        new.enablers = {**lt.enablers, **rt.enablers}
+        new.enablers = merge_enablers(lt.enablers, rt.enablers)
         return new
 
     def __str__(self) -> str:
@@ -193,15 +194,22 @@ class Config:
                 arg = ProcessedArg(Option.PYLINT, self._resolve_enable_disable_all(arg.val))
             ordered_args[int(arg.option)] = arg
 
+        applied_option_sets = {arg.option.to_name() for arg in self.config if arg is not None}
+        for arg in self.config:
+            if arg is not None and arg.option == Option.SET_GROUPS:
+                applied_option_sets.update(arg.val)
+
         enablers_from_option_sets = {}
         for name, option_set in option_sets.items():
+            if name not in applied_option_sets:
+                continue
             for linter, vals in option_set.to.items():
                 for val in vals:
                     add_enabled(name, enablers_from_option_sets, linter.to_option(), val)
 
         return ImmutableConfig(
             tuple(ImmutableArg(o, self._to_immutable(ordered_args[int(o)].val)) for o in Option),
-            hashabledict({**enablers_from_option_sets, **self.enablers}),
+            hashabledict(merge_enablers(enablers_from_option_sets, self.enablers)),
         )
 
 
diff --git a/edulint/config/utils.py b/edulint/config/utils.py
index 4648aad..bf642a9 100644
--- a/edulint/config/utils.py
+++ b/edulint/config/utils.py
@@ -34,7 +34,9 @@ def add_enabled(enabler_name: str, enablers: Dict[str, str], option: Option, val
     def extract(linter_option: str):
         if val.startswith(linter_option):
             for symbol in val[len(linter_option) :].split(","):
-                enablers[symbol] = enabler_name
+                symbol = symbol.strip()
+                # pylint accepts message ids in any letter case
+                enablers[symbol.upper() if symbol[1:].isdigit() else symbol] = enabler_name
         return {}
 
     if option == Option.PYLINT:
@@ -46,6 +48,16 @@ def add_enabled(enabler_name: str, enablers: Dict[str, str], option: Option, val
         enablers["EDL001"] = enabler_name
 
 
+def merge_enablers(lower: Dict[str, str], higher: Dict[str, str]) -> Dict[str, str]:
+    """Merges enablers so that those of higher precedence come later."""
+    return {**{k: v for k, v in lower.items() if k not in higher}, **higher}
+
+
+def get_enabler(enablers: Dict[str, str], *names: str) -> Optional[str]:
+    """Returns the enabler of highest precedence that enables any of the names."""
+    return next((enabler for name, enabler in reversed(enablers.items()) if name in names), None)
+
+
 def get_source_encoding(path: str) -> str:
     """Returns the encoding the Python source file declares."""
     try:
diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index 707ed7f..4a6c949 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -6,6 +6,7 @@ from edulint.linting.process_handler import ProcessHandler
 from edulint.linting.overrides import get_overriders
 from edulint.linting.tweakers import get_tweakers, Tweakers
 from edulint.config.config import ImmutableConfig
+from edulint.config.utils import get_enabler
 from edulint.config.language_translations import LangTranslations
 from edulint.options import Option, ImmutableT
 from edulint.linters import Linter
@@ -91,12 +92,9 @@ def pylint_to_problem(
                 return os.path.abspath(path) if os.path.isabs(file_or_dir) else os.path.relpath(path)
         return path  # e.g., pylint's configuration file
 
-    code_enabler = enablers.get(raw["messageId"])
-    symbol_enabler = enablers.get(raw["symbol"])
-
     return Problem(
         Linter.PYLINT,
-        code_enabler if code_enabler is not None else symbol_enabler,
+        get_enabler(enablers, raw["messageId"], raw["symbol"]),
         get_proper_path(get_used_filename(raw["path"])),
         raw["line"],
         raw["column"],
-- 
2.43.0


From 24f6e97c6857f45291606e21af44c9f580fa4222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:21 +0000
Subject: [PATCH 22/85] fix: apply the configuration file that forbids in-file
 configuration

---
 edulint/config/config.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 62d0a1d..9954ba4 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -600,10 +600,7 @@ def get_config_many(
         file_config, option_sets, lang_translations = config_file_result
 
         if _ignore_infile(file_config):
-            if cmd_config_path is not None:
-                config = Config.combine(file_config, cmd_config)
-            else:
-                config = cmd_config
+            config = Config.combine(file_config, cmd_config)
         else:
             config = Config.combine(file_config, combined)
 
-- 
2.43.0


From 80f7aef4974ae0005cbf500fcca2a7156fdca41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:21 +0000
Subject: [PATCH 23/85] fix: report all comments suppressing pylint or flake8

---
 edulint/linting/nonparsing_checkers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/nonparsing_checkers.py b/edulint/linting/nonparsing_checkers.py
index b3d93c9..6348dd0 100644
--- a/edulint/linting/nonparsing_checkers.py
+++ b/edulint/linting/nonparsing_checkers.py
@@ -12,11 +12,12 @@ from edulint.linting.problem import Problem
 CONFIG_PATTERNS = {
     Linter.FLAKE8: [
         re.compile(r"(.*)#\s*(noqa)", re.IGNORECASE),
-        re.compile(r"(.*)#\s*(flake8: *noqa)", re.IGNORECASE),
+        re.compile(r"(.*)#\s*(flake8[:=]\s*noqa)", re.IGNORECASE),
     ],
     Linter.PYLINT: [
-        re.compile(r"(.*)#\s*(pylint:\s*disable)", re.IGNORECASE),
-        re.compile(r"(.*)#\s*(pylint:\s*enable)", re.IGNORECASE),
+        # pylint allows text before the pragma as well as multiple pragmas in a comment
+        re.compile(rf"(.*)#.*?\b(pylint:(?:\s*|[^;#\n]*?[^\w-]){pragma})", re.IGNORECASE)
+        for pragma in ("disable", "enable", "skip-file")
     ],
     Linter.EDULINT: [],  # handled in config
 }
-- 
2.43.0


From 96a1e16acbac8d2822ec50c52889807e64d67f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:11 +0000
Subject: [PATCH 24/85] fix: recognize operands with dots when filtering
 repeated operations

---
 edulint/linting/tweakers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/tweakers.py b/edulint/linting/tweakers.py
index 7169472..d9c7275 100644
--- a/edulint/linting/tweakers.py
+++ b/edulint/linting/tweakers.py
@@ -134,7 +134,7 @@ TWEAKERS = {
     ),
     (Linter.PYLINT, "R6607"): Tweaker(  # no-repeated-op
         set([Option.SET_GROUPS]),
-        re.compile(r"^Use [^ ]* instead of repeated [^ ]* in ([^\.]*)."),
+        re.compile(r"^Use [^ ]* instead of repeated [^ ]* in (.*)\.$", re.DOTALL),
         no_repeated_op_keep,
     ),
     (Linter.PYLINT, "C0325"): Tweaker(  # superfluous-parens
-- 
2.43.0


From d07785eb455fff6fc7d45bb64c26e96a9bb41bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:12 +0000
Subject: [PATCH 25/85] fix: lint files whose relative path starts with a dash

---
 edulint/linting/linting.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index 4a6c949..9d67fee 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -63,6 +63,12 @@ def drop_repeated(files_or_dirs: List[str]) -> List[str]:
     ]
 
 
+def to_positional_args(files_or_dirs: List[str]) -> List[str]:
+    return [
+        os.path.join(os.curdir, path) if path.startswith("-") else path for path in files_or_dirs
+    ]
+
+
 def is_pylint_out_of_file_problem(path):
     return path in ("Command line", "Command line or configuration file")
 
@@ -171,7 +177,9 @@ def lint_flake8(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
     sys.stderr = new_stderr
 
     try:
-        Application()._run(["--format=json"] + list(config[Option.FLAKE8]) + files_or_dirs)
+        Application()._run(
+            ["--format=json"] + list(config[Option.FLAKE8]) + to_positional_args(files_or_dirs)
+        )
         return_code = 0
     except SystemExit as e:
         return_code = e.code
@@ -232,7 +240,7 @@ def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
     pylint_args = [
         "--recursive=y",
         *config[Option.PYLINT],
-        *files_or_dirs,
+        *to_positional_args(files_or_dirs),
     ]
 
     from pylint.lint import PyLinter, Run
-- 
2.43.0


From 89bb2a15d5fc22715bd50abe56a1eb041bc91881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:33 +0000
Subject: [PATCH 26/85] fix: fill in translations of messages of checkers in
 subpackages

---
 edulint/config/language_translations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index 3ddcefc..ffed836 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -22,8 +22,8 @@ def to_pattern(message: str):
 
 
 def checker_classes(module):
-    for module_info in pkgutil.walk_packages(module.__path__):
-        submodule = importlib.import_module(f"{module.__name__}.{module_info.name}")
+    for module_info in pkgutil.walk_packages(module.__path__, f"{module.__name__}."):
+        submodule = importlib.import_module(module_info.name)
         for name, obj in inspect.getmembers(submodule):
             if inspect.isclass(obj) and issubclass(obj, BaseChecker) and obj != BaseChecker:
                 yield obj
-- 
2.43.0


From 5586dff9fcc212ff7ab27e3e6c8ce699d1809c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 27/85] fix: decode remote configuration as UTF-8

---
 edulint/config/file_config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edulint/config/file_config.py b/edulint/config/file_config.py
index 6d9b240..32b8cc2 100644
--- a/edulint/config/file_config.py
+++ b/edulint/config/file_config.py
@@ -141,6 +141,7 @@ class CachedHTTPGet:
         try:
             resp = requests.get(url, timeout=5)
             if resp.status_code == 200:
+                resp.encoding = "utf8"  # TOML is always UTF-8, whatever is declared or guessed
                 content = resp.text
                 cls._write_version_to_disk(url, content)
                 return content
-- 
2.43.0


From 62159741f490ff149a7ef0e12debe9fdb1b564d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 28/85] fix: do not hang on explanation update records left by
 an interrupted run

---
 edulint/explanations.py | 47 ++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/edulint/explanations.py b/edulint/explanations.py
index 74c32f9..78b715c 100644
--- a/edulint/explanations.py
+++ b/edulint/explanations.py
@@ -1,11 +1,9 @@
 from typing import Dict
 import os
-from threading import Thread
+from threading import Lock, Thread
 from pathlib import Path
 from typing import Optional, Dict
-import dbm
 import time
-import random
 
 import tomli
 import requests
@@ -18,7 +16,7 @@ EXPLANATIONS_PIP_DISTRIBUTED_FILEPATH = os.path.join(SCRIPT_PATH, "explanations.
 
 EDULINT_LOCAL_DATA_FOLDER = PlatformDirs(appname="edulint").user_data_dir
 EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH = os.path.join(EDULINT_LOCAL_DATA_FOLDER, "explanations_online.toml")
-EXPLANATIONS_DBM = os.path.join(EDULINT_LOCAL_DATA_FOLDER, "explanations.dbm")
+EXPLANATIONS_LAST_UPDATE_FILEPATH = os.path.join(EDULINT_LOCAL_DATA_FOLDER, "explanations_last_update.txt")
 GITHUB_URL = "https://raw.githubusercontent.com/GiraffeReversed/edulint/main/edulint/explanations.toml"
 
 try:
@@ -61,6 +59,9 @@ def _load_updated_explanations() -> Optional[Dict[str, str]]:
 
 
 # --- Update explanation
+last_update_lock = Lock()  # one process can start several updates
+
+
 def current_timestamp() -> int:
     return int(time.time())
 
@@ -71,28 +72,40 @@ def update_explanations(disable_explanations_update: bool = False):
     Thread(target=_thread_update_explanations).start()
 
 
+def _get_last_update() -> int:
+    try:
+        with open(EXPLANATIONS_LAST_UPDATE_FILEPATH, "r", encoding="utf8") as f:
+            return int(f.read())
+    except (FileNotFoundError, ValueError):
+        return 0
+
+
+def _write_file(path: str, content: str) -> None:
+    # other processes must not see, and a crash must not leave, partial content
+    tmp_path = f"{path}.{os.getpid()}.tmp"
+    try:
+        with open(tmp_path, "w", encoding="utf8", newline="") as f:
+            f.write(content)
+        os.replace(tmp_path, path)
+    finally:
+        Path(tmp_path).unlink(missing_ok=True)
+
+
 def _thread_update_explanations(ttl: int = 600): 
     try:
-        if not Path(EXPLANATIONS_DBM).exists():
-            time.sleep(random.randint(1,30)/1000)  # Small random delay to lower the chance for file creation race condition 
-        with dbm.open(EXPLANATIONS_DBM, 'c') as db:
-            if current_timestamp() < int(db.get('last_update', b'0')) + ttl:
+        with last_update_lock:
+            if current_timestamp() < _get_last_update() + ttl:
                 return
-            db['last_update'] = str(current_timestamp())  # We're counting any update attempt, not just the succesfull ones
-        logger.debug(f"Succesfully wrote current time to {EXPLANATIONS_DBM}.")
+            # We're counting any update attempt, not just the succesfull ones
+            _write_file(EXPLANATIONS_LAST_UPDATE_FILEPATH, str(current_timestamp()))
+        logger.debug(f"Succesfully wrote current time to {EXPLANATIONS_LAST_UPDATE_FILEPATH}.")
 
         resp = requests.get(GITHUB_URL, timeout=3)
         if resp.status_code != 200:
             return
 
         _parse_explanations(resp.text)  # do not replace valid explanations with invalid ones
-        tmp_path = f"{EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH}.{os.getpid()}.tmp"
-        try:
-            with open(tmp_path, "w", encoding="utf8", newline="") as f:
-                f.write(resp.text)
-            os.replace(tmp_path, EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH)
-        finally:
-            Path(tmp_path).unlink(missing_ok=True)
+        _write_file(EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH, resp.text)
     except Exception as e:
         logger.debug(f"Update of explanations failed with {e}. This can ocassionaly hapen for some processes due to race condition.")
 
-- 
2.43.0


From 9aaa92b352edf375d896b1849a6a11c3c13c82af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 29/85] fix: build control flow graphs with match, async,
 except* and finally statements

---
 edulint/linting/analyses/cfg/graph.py       |   6 +
 edulint/linting/analyses/cfg/utils.py       |  46 +++-
 edulint/linting/analyses/cfg/visitor.py     | 275 +++++++++++++-------
 edulint/linting/analyses/data_dependency.py |  18 +-
 4 files changed, 235 insertions(+), 110 deletions(-)

diff --git a/edulint/linting/analyses/cfg/graph.py b/edulint/linting/analyses/cfg/graph.py
index f734422..4709d30 100644
--- a/edulint/linting/analyses/cfg/graph.py
+++ b/edulint/linting/analyses/cfg/graph.py
@@ -218,6 +218,12 @@ class CFGBlock:
         elif isinstance(statement, nodes.If):
             pos = len(self.locs) - 1
             assert self.locs[pos].node == statement.test
+        elif isinstance(statement, nodes.Match):
+            pos = len(self.locs) - 1
+            assert self.locs[pos].node == statement.subject
+        elif isinstance(statement, nodes.MatchCase):
+            pos = 0
+            assert self.locs[pos].node == statement.pattern
         elif isinstance(statement, nodes.While):
             pos = 0
             assert self.locs[pos].node == statement.test
diff --git a/edulint/linting/analyses/cfg/utils.py b/edulint/linting/analyses/cfg/utils.py
index 90fe845..35fec7f 100644
--- a/edulint/linting/analyses/cfg/utils.py
+++ b/edulint/linting/analyses/cfg/utils.py
@@ -385,23 +385,51 @@ def predecessors_from_loc(
 
 def get_cfg_loc(in_stmt: nodes.NodeNG) -> CFGLoc:
     """Returns the CFGLoc of this node or its closest parent."""
-    while not hasattr(in_stmt, "cfg_loc"):
-        in_stmt = in_stmt.parent
+    child = None
+    while not hasattr(in_stmt, "cfg_loc") or (
+        # defaults and annotations are evaluated when the function is defined
+        isinstance(in_stmt, nodes.Arguments)
+        and child is not None
+        and not isinstance(child, nodes.AssignName)
+    ):
+        child, in_stmt = in_stmt, in_stmt.parent
         assert in_stmt is not None
 
+    # fixes a bug in astroid, where vararg AssignName has the FunctionDef as parent, not Arguments
+    if isinstance(in_stmt, nodes.FunctionDef) and isinstance(child, nodes.AssignName):
+        return in_stmt.args.cfg_loc
+
     return in_stmt.cfg_loc
 
 
-def get_stmt_locs(loc: CFGLoc) -> Tuple[Optional[CFGLoc], Optional[CFGLoc]]:
+def get_stmt_locs(loc: CFGLoc) -> Tuple[Optional[CFGLoc], ...]:
     """
     Takes a location and returns a tuple with possible statement locations
     (locations which are not a true part of the CFG = if statements, not just
     their conditions, etc.)
     """
+    stmt_loc, wrapping_loc = _get_stmt_and_wrapping_loc(loc)
+    innermost = wrapping_loc if wrapping_loc is not None else stmt_loc
+    if innermost is None:
+        return None, None
+
+    try_locs = []
+    stmt = innermost.node
+    while isinstance(stmt.parent, (nodes.Try, nodes.TryStar)) and stmt == stmt.parent.body[0]:
+        stmt = stmt.parent
+        try_locs.append(stmt.cfg_loc)
+
+    return stmt_loc, wrapping_loc, *try_locs
+
+
+def _get_stmt_and_wrapping_loc(loc: CFGLoc) -> Tuple[Optional[CFGLoc], Optional[CFGLoc]]:
     parent = loc.node.parent
 
-    if isinstance(loc.node, nodes.Arguments) or (
-        isinstance(parent, nodes.For) and loc.node == parent.target
+    if (
+        isinstance(loc.node, nodes.Arguments)
+        or (isinstance(parent, nodes.For) and loc.node == parent.target)
+        or (isinstance(parent, nodes.ExceptHandler) and loc.node == parent.name)
+        or (isinstance(parent, nodes.MatchCase) and loc.node in (parent.pattern, parent.guard))
     ):
         return None, None
 
@@ -413,13 +441,13 @@ def get_stmt_locs(loc: CFGLoc) -> Tuple[Optional[CFGLoc], Optional[CFGLoc]]:
         return loc, None
 
     if (isinstance(parent, (nodes.If, nodes.While)) and loc.node == parent.test) or (
-        isinstance(parent, nodes.For) and loc.node == parent.iter
+        isinstance(parent, nodes.For)
+        and loc.node == parent.iter
+        or isinstance(parent, nodes.Match)
+        and loc.node == parent.subject
     ):
         return None, parent.cfg_loc
 
-    if isinstance(parent, nodes.Try) and loc.node == parent.body[0]:
-        return loc, parent.cfg_loc
-
     return loc, None
 
 
diff --git a/edulint/linting/analyses/cfg/visitor.py b/edulint/linting/analyses/cfg/visitor.py
index 1a3c32c..14a8542 100644
--- a/edulint/linting/analyses/cfg/visitor.py
+++ b/edulint/linting/analyses/cfg/visitor.py
@@ -1,6 +1,6 @@
 # adapted from https://github.com/pyta-uoft/pyta/blob/4c858623549e24a49fea7aef9c8ec7c20c836bd6/python_ta/cfg/visitor.py
 
-from typing import Any, Dict, List, Optional, Tuple, Union
+from typing import Any, Dict, Generator, List, Optional, Tuple, Union
 
 from astroid import nodes
 
@@ -48,6 +48,7 @@ class CFGVisitor:
         self._current_cfg = None
         self._current_block = None
         self._control_boundaries = []
+        self._try_depth = 0
 
     def __getattr__(self, attr: str):
         if attr.startswith("visit_"):
@@ -58,7 +59,13 @@ class CFGVisitor:
     def visit_generic(self, node: nodes.NodeNG) -> None:
         """By default, add the expression to the end of the current block."""
         if self._current_block is not None:
-            self._current_block.add_statement(node)
+            self._add_statement(node)
+
+    def _add_statement(self, node: nodes.NodeNG) -> None:
+        self._current_block.add_statement(node)
+        if self._try_depth > 0:
+            # An exception may occur between any two statements
+            self._current_block = self._current_cfg.create_block(self._current_block)
 
     def visit_module(self, module: nodes.Module) -> None:
         # Modules shouldn't be considered if user specifies functions to render
@@ -87,7 +94,7 @@ class CFGVisitor:
         functions_to_render = self.options.get("functions", [])
 
         if self._current_block is not None:
-            self._current_block.add_statement(node)
+            self._add_statement(node)
 
         previous_cfg = self._current_cfg
         previous_block = self._current_block
@@ -96,7 +103,14 @@ class CFGVisitor:
         self.cfg_count += 1
         self._current_cfg = self.cfgs[node]
 
-        self._current_block = self._current_cfg.create_block()
+        previous_try_depth = self._try_depth
+        self._try_depth = 0
+        jumps = (nodes.Break, nodes.Continue, nodes.Return, nodes.Raise)
+        self._control_boundaries.append(
+            (node, {jump.__name__: self._current_cfg.end for jump in jumps})
+        )
+
+        self._current_block = self._current_cfg.start
 
         for child in node.body:
             if functions_to_render:
@@ -105,6 +119,9 @@ class CFGVisitor:
             else:
                 child.accept(self)
 
+        self._control_boundaries.pop()
+        self._try_depth = previous_try_depth
+
         self._current_cfg.link_or_merge(self._current_block, self._current_cfg.end)
         self._current_cfg.update_block_reachability()
 
@@ -127,7 +144,7 @@ class CFGVisitor:
                 return
 
         if self._current_block is not None:
-            self._current_block.add_statement(func)
+            self._add_statement(func)
 
         previous_cfg = self._current_cfg
         previous_block = self._current_block
@@ -136,6 +153,8 @@ class CFGVisitor:
         self.cfg_count += 1
         self._current_cfg = self.cfgs[func]
 
+        previous_try_depth = self._try_depth
+        self._try_depth = 0
         self._control_boundaries.append(
             (
                 func,
@@ -154,6 +173,7 @@ class CFGVisitor:
             child.accept(self)
 
         self._control_boundaries.pop()
+        self._try_depth = previous_try_depth
 
         self._current_cfg.link_or_merge(self._current_block, self._current_cfg.end)
         self._current_cfg.update_block_reachability()
@@ -293,6 +313,41 @@ class CFGVisitor:
         self._current_cfg.link_or_merge(end_else, after_for_block)
         self._current_block = after_for_block
 
+    def visit_asyncfor(self, node: nodes.AsyncFor) -> None:
+        self.visit_for(node)
+
+    def visit_match(self, node: nodes.Match) -> None:
+        # When only creating cfgs for functions, _current_cfg will only be None outside of functions
+        if self._current_cfg is None:
+            return
+
+        self._current_block.add_statement(node.subject)
+        self._current_block.add_CF_statement(node)
+
+        previous_case_block = self._current_block
+        after_match_block = self._current_cfg.create_block()
+        may_match_nothing = True
+
+        for case in node.cases:
+            case_block = self._current_cfg.create_block(previous_case_block)
+            case_block.add_statement(case.pattern)
+            if case.guard is not None:
+                case_block.add_statement(case.guard)
+            elif isinstance(case.pattern, nodes.MatchAs) and case.pattern.pattern is None:
+                may_match_nothing = False
+            case_block.add_CF_statement(case)
+
+            self._current_block = self._current_cfg.create_block(case_block)
+            for child in case.body:
+                child.accept(self)
+            self._current_cfg.link_or_merge(self._current_block, after_match_block)
+
+            previous_case_block = case_block
+
+        if may_match_nothing:
+            self._current_cfg.link_or_merge(previous_case_block, after_match_block)
+        self._current_block = after_match_block
+
     def visit_break(self, node: nodes.Break) -> None:
         self._visit_jump(node)
 
@@ -312,64 +367,88 @@ class CFGVisitor:
         if self._current_cfg is None:
             return
 
-        old_curr = self._current_block
-        old_curr.add_statement(node)
-        for boundary, exits in reversed(self._control_boundaries):
-            if isinstance(node, nodes.Raise):
-                exc_name = _get_raise_exc(node)
+        self._current_block.add_statement(node)
+        for target in self._get_jump_targets(type(node).__name__, node):
+            self._current_cfg.link(self._current_block, target)
+        unreachable_block = self._current_cfg.create_block()
+        self._current_block = unreachable_block
 
-                if exc_name in exits:
-                    self._current_cfg.link(old_curr, exits[exc_name])
-                    break
+    def _get_jump_targets(
+        self, jump: str, node: Optional[nodes.NodeNG] = None
+    ) -> Generator[CFGBlock, None, None]:
+        """Generates blocks control may continue to after a jump: the innermost one prepared for it,
+        for raise preceded by the handlers that may catch the exception."""
+        for boundary, exits in reversed(self._control_boundaries):
+            if jump not in exits:
+                continue
 
-            if type(node).__name__ in exits:
-                self._current_cfg.link(old_curr, exits[type(node).__name__])
+            yield exits[jump]
+            if not isinstance(boundary, nodes.ExceptHandler) or _surely_catches(boundary, node):
                 break
-        unreachable_block = self._current_cfg.create_block()
-        self._current_block = unreachable_block
 
     def visit_try(self, node: nodes.Try) -> None:
         # When only creating cfgs for functions, _current_cfg will only be None outside of functions
         if self._current_cfg is None:
             return
 
+        # An exception may occur before the first statement of the body does anything
         if self._current_block.locs != []:
+            raising_blocks = [self._current_block]
             self._current_block = self._current_cfg.create_block(self._current_block)
+        else:
+            raising_blocks = [edge.source for edge in self._current_block.predecessors]
         node_block = self._current_block
 
-        # Construct the exception handlers first
-        # Initialize a temporary block to later merge with end_body
-        self._current_block = self._current_cfg.create_block()
-        temp = self._current_block
+        handler_blocks = [self._current_cfg.create_block() for _ in node.handlers]
         finally_block = self._current_cfg.create_block()
         end_block = self._current_cfg.create_block()
-        # Case where Raise is not handled in the try block
-        self._control_boundaries.append((node, {nodes.Raise.__name__: end_block}))
-        cbs_added = 1
-
-        after_body = []
-        # Construct blocks in reverse to give precedence to the first block in overlapping except
-        # branches
-        for handler in reversed(node.handlers):
-            h = self._current_cfg.create_block()
-            self._current_block = h
+        first_inner_id = end_block.id + 1
+
+        # Whatever leaves the statement executes its finalbody first
+        if node.finalbody != []:
+            jumps = (nodes.Break, nodes.Continue, nodes.Return, nodes.Raise)
+            self._control_boundaries.append((node, {jump.__name__: finally_block for jump in jumps}))
 
-            exceptions = _extract_exceptions(handler)
-            # Edge case: catch-all except clause (i.e. except: ...)
-            if exceptions == []:
-                self._control_boundaries.append((node, {nodes.Raise.__name__: h}))
-                cbs_added += 1
+        # Reversed to give precedence to the first handler of those that catch an exception
+        for handler, h in zip(reversed(node.handlers), reversed(handler_blocks)):
+            self._control_boundaries.append((handler, {nodes.Raise.__name__: h}))
+
+        self._try_depth += 1
+        for child in node.body:
+            child.accept(self)
+        self._try_depth -= 1
 
-            # General case: specific except clause
-            for exception in exceptions:
-                self._control_boundaries.append((node, {f"{nodes.Raise.__name__} {exception}": h}))
-                cbs_added += 1
+        assert len(node.body) > 0
+        # do not use node_block, because it may be overtaken by link_or_merge
+        node.body[0].cfg_loc.block.add_CF_statement(node)
 
+        for _ in node.handlers:
+            self._control_boundaries.pop()
+
+        end_body = self._current_block
+        raising_blocks += self._get_raising_blocks(node_block, first_inner_id)
+        for h in handler_blocks:
+            self._link_all(raising_blocks, h)
+
+        # Exceptions in the rest of the statement matter only if there is finalbody to execute
+        self._try_depth += 1 if node.finalbody != [] else 0
+
+        if node.orelse == []:
+            self._current_cfg.link_or_merge(end_body, finally_block)
+        else:
+            orelse_block = self._current_cfg.create_block()
+            self._current_cfg.link_or_merge(end_body, orelse_block)
+            self._current_block = orelse_block
+            for child in node.orelse:
+                child.accept(self)
+            self._current_cfg.link_or_merge(self._current_block, finally_block)
+
+        for handler, h in zip(node.handlers, handler_blocks):
+            self._current_block = h
             if handler.name is not None:  # The name assigned to the caught exception.
                 handler.name.accept(self)
             for child in handler.body:
                 child.accept(self)
-            end_handler = self._current_block
 
             if len(h.locs) == 0:
                 # h was overtaken by link_or_merge
@@ -378,37 +457,59 @@ class CFGVisitor:
             else:
                 h.add_CF_statement(handler)
 
-            self._current_cfg.link_or_merge(end_handler, finally_block)
-            after_body.append(h)
+            self._current_cfg.link_or_merge(self._current_block, finally_block)
 
-        if node.orelse == []:
-            after_body.append(finally_block)
+        if node.finalbody == []:
+            self._current_cfg.link_or_merge(finally_block, end_block)
         else:
-            self._current_block = self._current_cfg.create_block()
-            after_body.append(self._current_block)
-            for child in node.orelse:
+            self._try_depth -= 1
+            self._control_boundaries.pop()
+
+            raising_blocks += handler_blocks
+            raising_blocks += self._get_raising_blocks(node_block, first_inner_id)
+            self._link_all(raising_blocks, finally_block)
+            jumps_through = {nodes.Raise.__name__: None}
+            for edge in finally_block.predecessors:
+                last = edge.source.locs[-1].node
+                if isinstance(last, (nodes.Break, nodes.Continue, nodes.Return)):
+                    jumps_through[type(last).__name__] = None
+
+            self._current_block = finally_block
+            for child in node.finalbody:
                 child.accept(self)
-            self._current_cfg.link_or_merge(self._current_block, finally_block)
 
-        # Construct the try body so reset current block to this node's block
-        self._current_block = node_block
+            after_finally = [end_block]
+            for jump in jumps_through:
+                for target in self._get_jump_targets(jump):
+                    if target not in after_finally:
+                        after_finally.append(target)
+            self._current_cfg.multiple_link_or_merge(self._current_block, after_finally)
 
-        for child in node.body:
-            child.accept(self)
-        end_body = self._current_block
+        self._current_block = end_block
 
-        assert len(node.body) > 0
-        # do not use node_block, because it may be overtaken by link_or_merge
-        node.body[0].cfg_loc.block.add_CF_statement(node)
+    def _get_raising_blocks(self, node_block: CFGBlock, first_inner_id: int) -> List[CFGBlock]:
+        return [
+            block
+            for block in sorted(self._current_cfg.unreachable_blocks, key=lambda block: block.id)
+            if (block is node_block or block.id >= first_inner_id)
+            and block.locs != []
+            and not isinstance(block.locs[-1].node, (nodes.Raise, nodes.Break, nodes.Continue))
+        ]
+
+    def _link_all(self, sources: List[CFGBlock], target: CFGBlock) -> None:
+        for source in sources:
+            if (
+                source is not target
+                and source.locs != []
+                and all(edge.target is not target for edge in source.successors)
+            ):
+                self._current_cfg.link(source, target)
 
-        # Remove each control boundary that we added in this method
-        for _ in range(cbs_added):
-            self._control_boundaries.pop()
+    def visit_trystar(self, node: nodes.TryStar) -> None:
+        self.visit_try(node)
 
-        self._current_cfg.link_or_merge(temp, end_body)
-        self._current_cfg.multiple_link_or_merge(end_body, after_body)
-        self._current_cfg.link_or_merge(finally_block, end_block)
-        self._current_block = end_block
+    def visit_asyncwith(self, node: nodes.AsyncWith) -> None:
+        self.visit_with(node)
 
     def visit_with(self, node: nodes.With) -> None:
         # When only creating cfgs for functions, _current_cfg will only be None outside of functions
@@ -417,42 +518,26 @@ class CFGVisitor:
 
         self._current_block.add_CF_statement(node)
         for context_node, name in node.items:
-            self._current_block.add_statement(context_node)
+            self._add_statement(context_node)
             if name is not None:
-                self._current_block.add_statement(name)
+                self._add_statement(name)
 
         for child in node.body:
             child.accept(self)
 
 
-def _extract_exceptions(node: nodes.ExceptHandler) -> List[str]:
-    """A helper method that returns a list of all the exceptions handled by this except block as a
-    list of strings.
-    """
-    exceptions = node.type
-    exceptions_so_far = []
-    # ExceptHandler.type will either be Tuple, NodeNG, or None.
-    if exceptions is None:
-        return exceptions_so_far
-
-    # Get all the Name nodes for all exceptions this except block is handling
-    for exception in exceptions.nodes_of_class(nodes.Name):
-        exceptions_so_far.append(exception.name)
-
-    return exceptions_so_far
-
+def _surely_catches(handler: nodes.ExceptHandler, raised: Optional[nodes.NodeNG]) -> bool:
+    """Returns True if whatever is raised by the given statement (if any) has to be caught by the
+    handler."""
+    if handler.type is None:
+        return True
 
-def _get_raise_exc(node: nodes.Raise) -> str:
-    """A helper method that returns a string formatted for the control boundary representing the
-    exception that this Raise node throws.
-
-    Preconditions:
-        - the raise statement is of the form 'raise' or 'raise <exception_class>'
-    """
-    exceptions = node.nodes_of_class(nodes.Name)
+    caught = handler.type.elts if isinstance(handler.type, nodes.Tuple) else [handler.type]
+    names = [exc.name for exc in caught if isinstance(exc, nodes.Name)]
+    if "BaseException" in names:
+        return True
 
-    # Return the formatted name of the exception or the just 'Raise' otherwise
-    try:
-        return f"{nodes.Raise.__name__} {next(exceptions).name}"
-    except StopIteration:
-        return nodes.Raise.__name__
+    exc = raised.exc if isinstance(raised, nodes.Raise) else None
+    if isinstance(exc, nodes.Call):
+        exc = exc.func
+    return isinstance(exc, nodes.Name) and exc.name in names
diff --git a/edulint/linting/analyses/data_dependency.py b/edulint/linting/analyses/data_dependency.py
index 6edfadf..6e1f035 100644
--- a/edulint/linting/analyses/data_dependency.py
+++ b/edulint/linting/analyses/data_dependency.py
@@ -582,7 +582,7 @@ def get_assigned_expressions(
         assert isinstance(def_event.node, nodes.AssignName)
 
         parent = def_event.node.parent
-        if isinstance(parent, nodes.FunctionDef) and (
+        if isinstance(parent, (nodes.FunctionDef, nodes.Lambda)) and (
             def_event.node == parent.args.vararg_node or def_event.node == parent.args.kwarg_node
         ):
             parent = parent.args
@@ -599,12 +599,19 @@ def get_assigned_expressions(
         else:
 
             parents = [def_event.node]
-            while not isinstance(parent, _ASSIGNING_EXPRESSIONS + _ASSIGNING_ITERS):
+            while (
+                not isinstance(parent, _ASSIGNING_EXPRESSIONS + _ASSIGNING_ITERS)
+                and not parent.is_statement
+            ):
                 parents.append(parent)
                 parent = parent.parent
             assigning = parent
 
-            if isinstance(assigning, _ASSIGNING_ITERS):
+            if not isinstance(assigning, _ASSIGNING_EXPRESSIONS + _ASSIGNING_ITERS):
+                # destructuring in with or match
+                if type(assigning) in include_nodes:
+                    yield assigning
+            elif isinstance(assigning, _ASSIGNING_ITERS):
                 if include_destructuring:
                     yield assigning.iter
             else:
@@ -790,9 +797,8 @@ def _get_defs_at_rec(
 
         explored_functions.add(function)
         # resolved calls
-        var_events = list(function.cfg_loc.var_events.all())
-        assert len(var_events) == 1 and var_events[0][0].name == function.name
-        event = var_events[0][1]
+        event = node_to_event(function)
+        assert event is not None and event.var.name == function.name
         for use in event.uses:
             end_nodes.append(use.node)
 
-- 
2.43.0


From f6c6013a4f9872a9845a164c62aae9bdcdda94eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 30/85] fix: resolve variables to the scopes Python binds them
 to

---
 edulint/linting/analyses/variable_scope.py | 402 ++++++++++++---------
 1 file changed, 239 insertions(+), 163 deletions(-)

diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index 465ef7f..20c6bae 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -3,6 +3,7 @@ import re
 from typing import Dict, List, Union, Optional, Iterator, Tuple, Set
 
 from astroid import nodes
+from astroid.const import Context
 
 from edulint.linting.analyses.cfg.utils import get_cfg_loc
 from edulint.linting.analyses.utils import BaseVisitor, is_builtin
@@ -29,16 +30,80 @@ class VarEventsAnalysis:
         )
 
 
+COMPREHENSIONS = (nodes.GeneratorExp, nodes.ListComp, nodes.DictComp, nodes.SetComp)
+
+
 def in_new_scope(func):
-    def inner(self, *args, **kwargs):
-        self.stack.append({})
-        result = func(self, *args, **kwargs)
-        self.stack.pop()
+    def inner(self, node, *args, **kwargs):
+        self._enter_scope(node)
+        result = func(self, node, *args, **kwargs)
+        self._leave_scope()
         return result
 
     return inner
 
 
+def evaluated_outside(node: ScopeNode) -> List[nodes.NodeNG]:
+    """Returns parts of a node creating a scope that are evaluated in the enclosing scope."""
+    if isinstance(node, nodes.Module):
+        return []
+    if isinstance(node, COMPREHENSIONS):
+        return [node.generators[0].iter]
+
+    result = []
+    if not isinstance(node, nodes.Lambda) and node.decorators is not None:
+        result.append(node.decorators)
+    if isinstance(node, nodes.ClassDef):
+        return result + node.bases + node.keywords
+
+    args = node.args
+    result.extend(args.defaults or [])
+    result.extend(args.kw_defaults or [])
+    result.extend(args.posonlyargs_annotations)
+    result.extend(args.annotations)
+    result.append(args.varargannotation)
+    result.extend(args.kwonlyargs_annotations)
+    result.append(args.kwargannotation)
+    if not isinstance(node, nodes.Lambda):
+        result.append(node.returns)
+    return [n for n in result if n is not None]
+
+
+def get_evaluation_scope(node: nodes.NodeNG) -> ScopeNode:
+    """Returns the scope the node is evaluated in."""
+    path = [node]
+    while True:
+        if isinstance(node.parent, ScopeNode) and not any(
+            n in evaluated_outside(node.parent) for n in path
+        ):
+            return node.parent
+        node = node.parent
+        path.append(node)
+
+
+def nodes_in_scope(scope: ScopeNode, comprehensions: bool = False) -> Iterator[nodes.NodeNG]:
+    """Generates nodes (transitively) inside the scope, without those in nested scopes (except, if
+    asked for, comprehensions)."""
+
+    def rec(node: nodes.NodeNG) -> Iterator[nodes.NodeNG]:
+        yield node
+        if isinstance(node, ScopeNode) and not (comprehensions and isinstance(node, COMPREHENSIONS)):
+            children = evaluated_outside(node)
+        else:
+            children = node.get_children()
+        for child in children:
+            yield from rec(child)
+
+    outside = evaluated_outside(scope)
+    for child in scope.get_children():
+        if isinstance(child, (nodes.Arguments, nodes.Comprehension)):
+            for grandchild in child.get_children():
+                if grandchild not in outside:
+                    yield from rec(grandchild)
+        elif child not in outside:
+            yield from rec(child)
+
+
 class UnknowableLocalsException(Exception):
     pass
 
@@ -50,6 +115,9 @@ class VarEventListener(BaseVisitor[None]):
 
     def __init__(self):
         self.stack: List[Dict[VarName, Tuple[nodes.NodeNG, ScopeNode]]] = []
+        self.scopes: List[ScopeNode] = []  # scopes on the stack
+        self.assigned: List[Set[VarName]] = []  # names already assigned to in scopes on the stack
+        self.definitions: List[List[nodes.NodeNG]] = []  # found in scopes on the stack
         self.variables: Set[Variable] = set()
         self.function_defs: List[nodes.FunctionDef] = []
         self.call_graph: Dict[ScopeNode, Set[ScopeNode]] = defaultdict(set)  # caller, calees
@@ -77,16 +145,77 @@ class VarEventListener(BaseVisitor[None]):
 
         return False
 
+    def _enter_scope(self, scope: ScopeNode) -> None:
+        names: Dict[VarName, Tuple[nodes.NodeNG, ScopeNode]] = {}
+        assigned = set()
+
+        if isinstance(scope, (nodes.FunctionDef, nodes.Lambda)):
+            for arg in scope.args.arguments:
+                names[arg.name] = (arg, scope)
+        for node in nodes_in_scope(scope):
+            for name in self._get_bound_names(node):
+                names.setdefault(name, (node, scope))
+        if not isinstance(scope, COMPREHENSIONS):
+            for node in nodes_in_scope(scope, comprehensions=True):
+                if isinstance(node, nodes.NamedExpr):
+                    names.setdefault(node.target.name, (node.target, scope))
+
+        if isinstance(scope, nodes.Module):
+            for node in scope.nodes_of_class(nodes.Global):
+                for name in node.names:
+                    names.setdefault(name, (node, scope))
+        for node in nodes_in_scope(scope):
+            if isinstance(node, nodes.Global):
+                for name in node.names:
+                    names[name] = (node, node.root())
+                    assigned.add(name)
+            elif isinstance(node, nodes.Nonlocal):
+                for name in node.names:
+                    nonlocal_scope = self._get_nonlocal_scope(name)
+                    if nonlocal_scope is not None:
+                        names[name] = (node, nonlocal_scope)
+                        assigned.add(name)
+
+        self.stack.append(names)
+        self.scopes.append(scope)
+        self.assigned.append(assigned)
+        self.definitions.append([])
+
+    def _leave_scope(self) -> None:
+        self.stack.pop()
+        self.scopes.pop()
+        self.assigned.pop()
+        self.definitions.pop()
+
+    @staticmethod
+    def _get_bound_names(node: nodes.NodeNG) -> List[VarName]:
+        if isinstance(node, (nodes.AssignName, nodes.DelName)):
+            if isinstance(node.parent, nodes.NamedExpr) and node.parent.target == node:
+                return []  # may be bound outside of the scope it is in
+            return [node.name]
+        if isinstance(node, (nodes.FunctionDef, nodes.ClassDef)):
+            return [node.name]
+        if isinstance(node, (nodes.Import, nodes.ImportFrom)):
+            return VarEventListener._get_imported_names(node)
+        return []
+
+    @staticmethod
+    def _get_imported_names(node: Union[nodes.Import, nodes.ImportFrom]) -> List[VarName]:
+        return [
+            alias if alias is not None else module.split(".", maxsplit=1)[0]
+            for module, alias in node.names
+        ]
+
+    def _get_nonlocal_scope(self, name: VarName) -> Optional[ScopeNode]:
+        for name_scope in reversed(self.stack):
+            if name in name_scope:
+                _name_node, scope = name_scope[name]
+                if isinstance(scope, (nodes.FunctionDef, nodes.Lambda)):
+                    return scope
+        return self.scopes[-1] if len(self.scopes) > 0 else None
+
     def _add_var_event(self, name: VarName, name_node: nodes.NodeNG, action: VarEventType):
         loc = get_cfg_loc(name_node)
-        # fixes a bug in astroid, where vararg AssignName has the FunctionDef as parent, not Arguments
-        if (
-            isinstance(name_node, nodes.AssignName)
-            and isinstance(loc.node, nodes.FunctionDef)
-            and name != loc.node.name
-        ):
-            loc = loc.node.args.cfg_loc
-
         name_scope = self._get_var_node_scope(name)
         # assert scope is not None or VarEventListener.may_be_unscoped(
         #     name, name_node, loc.node
@@ -104,25 +233,15 @@ class VarEventListener(BaseVisitor[None]):
         if isinstance(name_node.parent, nodes.Call) and name_node == name_node.parent.func:
             self.call_graph[name_node.scope()].add(init_name_node)
 
-        read_scope = (
-            name_node.scope()
-            if not isinstance(name_node, nodes.FunctionDef)
-            else name_node.parent.scope()
-        )
-        if isinstance(name_node, nodes.FunctionDef):
-            read_scope = name_node.parent.scope()
-        else:
-            read_scope = name_node
-            while not isinstance(read_scope, ScopeNode):
-                read_scope = read_scope.parent
-
-        while scope != read_scope:
+        for read_scope in reversed(self.scopes):
+            if read_scope == scope:
+                break
             self.outside_scope_events[read_scope].append(event)
-            read_scope = read_scope.parent
 
     def _get_var_scope_index(self, name: VarName) -> Optional[int]:
         for i, name_scope in enumerate(reversed(self.stack), 1):
-            if name in name_scope:
+            # names bound in a class body are not visible in scopes inside it
+            if name in name_scope and (i == 1 or not isinstance(self.scopes[-i], nodes.ClassDef)):
                 return -i
         return None
 
@@ -133,189 +252,144 @@ class VarEventListener(BaseVisitor[None]):
         return self.stack[scope_index][name]
 
     def _init_var_in_scope(self, name: VarName, name_node: nodes.NodeNG) -> None:
-        was_defined = name in self.stack[-1]
-
-        if name not in self.stack[-1]:
-            scope = (
-                name_node.scope()
-                if not isinstance(
-                    name_node, (nodes.FunctionDef, nodes.AsyncFunctionDef, nodes.ClassDef)
-                )
-                else name_node.parent.scope()
-            )
-        else:
-            name_scope = self._get_var_node_scope(name)
-            assert name_scope is not None
-            _name, scope = name_scope
+        i = -1
+        if isinstance(name_node.parent, nodes.NamedExpr):
+            while isinstance(self.scopes[i], COMPREHENSIONS):
+                i -= 1
+
+        was_defined = name in self.assigned[i]
+        self.assigned[i].add(name)
 
-        self.stack[-1][name] = (name_node, scope)
+        _name_node, scope = self.stack[i][name]
+        self.stack[i][name] = (name_node, scope)
         self._add_var_event(
             name, name_node, VarEventType.ASSIGN if not was_defined else VarEventType.REASSIGN
         )
 
     def _del_var_from_scope(self, name: VarName, node: nodes.NodeNG):
         self._add_var_event(name, node, VarEventType.DELETE)
-        scope_index = self._get_var_scope_index(name)
-        if scope_index is None:
-            return
-
-        self.stack[scope_index].pop(name)
-
-    def statements_before_definitions(
-        self, node: Union[nodes.Module, nodes.FunctionDef, nodes.AsyncFunctionDef]
-    ):
-        later = []
-        for child in node.body:
-            if not isinstance(child, (nodes.FunctionDef, nodes.AsyncFunctionDef, nodes.ClassDef)):
-                self.visit(child)
+        self.assigned[-1].discard(name)
+
+    def _visit_definition(
+        self, node: Union[nodes.FunctionDef, nodes.AsyncFunctionDef, nodes.ClassDef]
+    ) -> None:
+        """Visits a definition without its body, which is left to be visited after the rest of
+        the scope the definition is in."""
+        self.visit_many(evaluated_outside(node))
+        self._init_var_in_scope(node.name, node)
+        self.definitions[-1].append(node)
+
+    def _visit_body(
+        self,
+        node: Union[nodes.Module, nodes.FunctionDef, nodes.AsyncFunctionDef, nodes.ClassDef],
+    ) -> None:
+        self.visit_many(node.body)
+        for definition in self.definitions[-1]:
+            if isinstance(definition, nodes.ClassDef):
+                self._visit_class(definition)
             else:
-                self._init_var_in_scope(child.name, child)
-                later.append(child)
-        return later
+                self._visit_function(definition)
 
     @in_new_scope
     def visit_module(self, node: nodes.Module):
-        return self.visit_many(self.statements_before_definitions(node))
+        return self._visit_body(node)
 
-    @in_new_scope
     def visit_functiondef(self, node: nodes.FunctionDef):
-        self.function_defs.append(node)
+        return self._visit_definition(node)
 
-        # args
-        for ann in node.args.annotations:
-            if ann is not None:
-                self.visit(ann)
+    def visit_asyncfunctiondef(self, node: nodes.AsyncFunctionDef):
+        return self._visit_definition(node)
 
+    def visit_classdef(self, node: nodes.ClassDef):
+        return self._visit_definition(node)
+
+    @in_new_scope
+    def _visit_function(self, node: nodes.FunctionDef):
+        self.function_defs.append(node)
         for arg in node.args.arguments:
             self._init_var_in_scope(arg.name, arg)
 
-        for default in node.args.defaults:
-            self.visit(default)
-
-        # posonly
-        for ann in node.args.posonlyargs_annotations:
-            if ann is not None:
-                self.visit(ann)
-
-        # kwonly
-        for ann in node.args.kwonlyargs_annotations:
-            if ann is not None:
-                self.visit(ann)
-
-        # vararg
-        if node.args.varargannotation is not None:
-            self.visit(node.args.varargannotation)
-
-        # kwarg
-        if node.args.kwargannotation is not None:
-            self.visit(node.args.kwargannotation)
-
-        return self.visit_many(self.statements_before_definitions(node))
-
-    def visit_asyncfunctiondef(self, node: nodes.AsyncFunctionDef):
-        self.visit_functiondef(node)
+        return self._visit_body(node)
 
     @in_new_scope
-    def visit_classdef(self, node: nodes.ClassDef):
-        return self.visit_many(self.statements_before_definitions(node))
+    def _visit_class(self, node: nodes.ClassDef):
+        return self._visit_body(node)
 
-    @in_new_scope
     def visit_lambda(self, node: nodes.Lambda):
+        self.visit_many(evaluated_outside(node))
+        return self._visit_lambda(node)
+
+    @in_new_scope
+    def _visit_lambda(self, node: nodes.Lambda):
         for arg in node.args.arguments:
             self._init_var_in_scope(arg.name, arg)
 
         return self.visit(node.body)
 
-    def _visit_generator(
-        self, node: Union[nodes.GeneratorExp, nodes.ListComp, nodes.DictComp, nodes.SetComp]
-    ):
-        self.visit_many(node.generators)
-        if isinstance(node, nodes.DictComp):
-            self.visit(node.key)
-            return self.visit(node.value)
-        return self.visit(node.elt)
-
-    @in_new_scope
     def visit_generatorexp(self, node: nodes.GeneratorExp):
-        return self._visit_generator(node)
+        return self._visit_comprehension(node)
 
-    @in_new_scope
     def visit_listcomp(self, node: nodes.ListComp):
-        return self._visit_generator(node)
+        return self._visit_comprehension(node)
 
-    @in_new_scope
     def visit_dictcomp(self, node: nodes.DictComp):
-        return self._visit_generator(node)
+        return self._visit_comprehension(node)
 
-    @in_new_scope
     def visit_setcomp(self, node: nodes.SetComp):
-        return self._visit_generator(node)
-
-    def visit_global(self, node: nodes.Global):
-        for name in node.names:
-            self.stack[-1][name] = (node, node.root().scope())
-
-        return self.default
-
-    def visit_nonlocal(self, node: nodes.Nonlocal):
-        for name in node.names:
-            self.stack[-1][name] = (node, node.scope().parent.scope())
+        return self._visit_comprehension(node)
 
-        return self.default
-
-    def _visit_assigned_to(self, node: nodes.NodeNG) -> None:
-        if isinstance(node, nodes.AssignName):
-            self._init_var_in_scope(node.name, node)
-        self.visit_many(node.get_children())
-
-        stripped = strip_to_name(node)
-        if stripped is None:
-            return
+    def _visit_comprehension(
+        self, node: Union[nodes.GeneratorExp, nodes.ListComp, nodes.DictComp, nodes.SetComp]
+    ):
+        self.visit_many(evaluated_outside(node))
+        return self._visit_generators(node)
 
-        if isinstance(node, (nodes.AssignAttr, nodes.Subscript)):
-            self._add_var_event(stripped.name, stripped, VarEventType.MODIFY)
+    @in_new_scope
+    def _visit_generators(
+        self, node: Union[nodes.GeneratorExp, nodes.ListComp, nodes.DictComp, nodes.SetComp]
+    ):
+        for i, generator in enumerate(node.generators):
+            if i > 0:
+                self.visit(generator.iter)
+            self.visit(generator.target)
+            self.visit_many(generator.ifs)
 
-    def _names_from_tuple(self, targets: List[nodes.NodeNG]) -> Iterator[nodes.NodeNG]:
-        for target in targets:
-            if not isinstance(target, nodes.Tuple):
-                yield target
-            else:
-                yield from self._names_from_tuple(target.elts)
+        if isinstance(node, nodes.DictComp):
+            self.visit(node.key)
+            return self.visit(node.value)
+        return self.visit(node.elt)
 
     def visit_assignname(self, node: nodes.AssignName):
-        self._visit_assigned_to(node)
+        self._init_var_in_scope(node.name, node)
         return self.default
 
     def visit_assign(self, node: nodes.Assign):
         self.visit(node.value)
-
-        for target in self._names_from_tuple(node.targets):
-            self._visit_assigned_to(target)
-
-        return self.default
+        return self.visit_many(node.targets)
 
     def visit_augassign(self, node: nodes.AugAssign):
-        stripped = strip_to_name(node.target)
-        if stripped is not None:
-            self._add_var_event(stripped.name, stripped, VarEventType.READ)
+        if isinstance(node.target, nodes.AssignName):
+            self._add_var_event(node.target.name, node.target, VarEventType.READ)
 
         self.visit(node.value)
-        self._visit_assigned_to(node.target)
+        return self.visit(node.target)
 
     def visit_annassign(self, node: nodes.AnnAssign):
         self.visit(node.annotation)
         if node.value is not None:
             self.visit(node.value)
-        self._visit_assigned_to(node.target)
-        return self.default
+        return self.visit(node.target)
+
+    def visit_namedexpr(self, node: nodes.NamedExpr):
+        self.visit(node.value)
+        return self.visit(node.target)
 
     def visit_delname(self, node: nodes.DelName):
         self._del_var_from_scope(node.name, node)
         return self.default
 
     def visit_import(self, node: nodes.Import):
-        for module, alias in node.names:
-            name = module if alias is None else alias
+        for name in self._get_imported_names(node):
             self._init_var_in_scope(name, node)
         return self.default
 
@@ -330,12 +404,14 @@ class VarEventListener(BaseVisitor[None]):
             )
         return self.visit_many(node.get_children())
 
-    def visit_for(self, node: nodes.For):
-        return self.visit_many(node.get_children())
-
     def visit_name(self, node: nodes.Name) -> None:
         self._add_var_event(node.name, node, VarEventType.READ)
 
+    def visit_subscript(self, node: nodes.Subscript) -> None:
+        self.visit_many(node.get_children())
+        if node.ctx in (Context.Store, Context.Del):
+            self._add_modify_event(node)
+
     def visit_attribute(self, node: nodes.Attribute) -> None:
         stripped = strip_to_name(node)
         if (
@@ -348,14 +424,14 @@ class VarEventListener(BaseVisitor[None]):
         return self.visit_many(node.get_children())
 
     def visit_assignattr(self, node: nodes.AssignAttr) -> None:
-        stripped = strip_to_name(node)
-        if stripped is not None:
-            self._add_var_event(stripped.name, stripped, VarEventType.MODIFY)
-
-        return self.visit_many(node.get_children())
+        self.visit_many(node.get_children())
+        self._add_modify_event(node)
 
     def visit_delattr(self, node: nodes.DelAttr) -> None:
+        self.visit_many(node.get_children())
+        self._add_modify_event(node)
+
+    def _add_modify_event(self, node: nodes.NodeNG) -> None:
         stripped = strip_to_name(node)
-        if stripped is None:
-            return
-        self._add_var_event(stripped.name, stripped, VarEventType.MODIFY)
+        if stripped is not None:
+            self._add_var_event(stripped.name, stripped, VarEventType.MODIFY)
-- 
2.43.0


From e3efc76429252336db47a4490ad0cff1a6f858a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 31/85] fix: do not crash on infinite constants and unusual
 calls of abs

---
 edulint/linting/analyses/z3_analysis.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/z3_analysis.py b/edulint/linting/analyses/z3_analysis.py
index 3bb90a9..fc1ebca 100644
--- a/edulint/linting/analyses/z3_analysis.py
+++ b/edulint/linting/analyses/z3_analysis.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+import math
 from typing import List, Optional, Dict, Tuple, TYPE_CHECKING
 
 from astroid import nodes
@@ -102,6 +103,9 @@ def _is_abs_function(node: nodes.NodeNG) -> bool:
         isinstance(node, nodes.Call)
         and isinstance(node.func, nodes.Name)
         and node.func.name == "abs"
+        and len(node.args) == 1
+        and not isinstance(node.args[0], nodes.Starred)
+        and len(node.keywords) == 0
     )
 
 
@@ -209,7 +213,7 @@ def _convert_const_to_z3(node: nodes.Const) -> Optional[z3.ExprRef]:
     if isinstance(node.value, int):
         return z3.IntVal(node.value)
 
-    if isinstance(node.value, float):
+    if isinstance(node.value, float) and math.isfinite(node.value):
         return z3.RealVal(node.value)
 
     return None
@@ -239,6 +243,8 @@ def convert_condition_to_z3_expression(
         expr, conversion_to_bool = convert_condition_to_z3_expression(
             node.args[0], initialized_variables, node
         )
+        if expr is None or z3.is_bool(expr):
+            return None, False
         expr, bool_conversion = _convert_to_bool_if_necessary(node, parent, z3.Abs(expr))
         return expr, bool_conversion or conversion_to_bool
 
-- 
2.43.0


From 1d1d8fd9ffa43fcb0c2c543ccc424555587bce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 32/85] fix: do not fail or hang on constants that cannot be
 computed

---
 edulint/linting/analyses/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/analyses/utils.py b/edulint/linting/analyses/utils.py
index 26d08be..3a6209e 100644
--- a/edulint/linting/analyses/utils.py
+++ b/edulint/linting/analyses/utils.py
@@ -425,8 +425,13 @@ def get_const_value_rec(node: Any) -> Any:
 
     if isinstance(node, nodes.BinOp):
         rt_val = get_const_value_rec(node.right)
-        if node.op not in ("/", "//", "%") or rt_val != 0:
-            return BINARY_SYMBOL_TO_OP[node.op](get_const_value_rec(node.left), rt_val)
+        lt_val = get_const_value_rec(node.left)
+        # do not compute values too large to be useful
+        may_be_huge = node.op in ("**", "<<") or (node.op == "*" and str in (type(lt_val), type(rt_val)))
+        if not may_be_huge or all(
+            not isinstance(val, (int, float)) or abs(val) <= 1e5 for val in (lt_val, rt_val)
+        ):
+            return BINARY_SYMBOL_TO_OP[node.op](lt_val, rt_val)
 
     if isinstance(node, nodes.BoolOp):
         assert len(node.values) > 1
@@ -443,7 +448,7 @@ def get_const_value_rec(node: Any) -> Any:
 def get_const_value(node: Any) -> Any:
     try:
         return get_const_value_rec(node)
-    except (ValueError, KeyError, TypeError):
+    except (ValueError, KeyError, TypeError, ArithmeticError):
         return None
 
 
-- 
2.43.0


From ec473e6132759896028399f9d28d4225bbc26a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 33/85] fix: do not crash on ord compared with a constant that
 is not an integer

---
 edulint/linting/checkers/local_defects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 983c7ce..04f6e6a 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -432,7 +432,7 @@ class Local(BaseChecker):
 
         for i, (op, param) in enumerate([(None, node.left), node.ops[-1]]):
             value = get_const_value(param)
-            if value is None or not self._in_suggestable_range(value):
+            if not isinstance(value, int) or not self._in_suggestable_range(value):
                 continue
 
             if i == 0:
-- 
2.43.0


From d1761ec9d62946ea7f3490cdcfefaa0d78fc49bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 34/85] fix: record variables used in metaclass arguments

---
 edulint/linting/analyses/variable_scope.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index 20c6bae..d5134a9 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -54,6 +54,8 @@ def evaluated_outside(node: ScopeNode) -> List[nodes.NodeNG]:
     if not isinstance(node, nodes.Lambda) and node.decorators is not None:
         result.append(node.decorators)
     if isinstance(node, nodes.ClassDef):
+        if node._metaclass is not None:  # not among keywords
+            result.append(node._metaclass)
         return result + node.bases + node.keywords
 
     args = node.args
-- 
2.43.0


From bf3c3e293ace4e077236fdbf44d2b37565b1ff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 35/85] fix: add types of exception handlers to the control
 flow graph

---
 edulint/linting/analyses/cfg/graph.py   | 2 +-
 edulint/linting/analyses/cfg/utils.py   | 2 +-
 edulint/linting/analyses/cfg/visitor.py | 2 ++
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/cfg/graph.py b/edulint/linting/analyses/cfg/graph.py
index 4709d30..999514d 100644
--- a/edulint/linting/analyses/cfg/graph.py
+++ b/edulint/linting/analyses/cfg/graph.py
@@ -238,7 +238,7 @@ class CFGBlock:
             pos = 0
             first_body_loc = statement.body[0].cfg_loc
             first_body_node = first_body_loc.block.locs[first_body_loc.pos].node
-            assert self.locs[pos].node in (statement.name, first_body_node)
+            assert self.locs[pos].node in (statement.type, statement.name, first_body_node)
         elif isinstance(statement, nodes.With):
             pos = len(self.locs)
         else:
diff --git a/edulint/linting/analyses/cfg/utils.py b/edulint/linting/analyses/cfg/utils.py
index 35fec7f..a0c6af6 100644
--- a/edulint/linting/analyses/cfg/utils.py
+++ b/edulint/linting/analyses/cfg/utils.py
@@ -428,7 +428,7 @@ def _get_stmt_and_wrapping_loc(loc: CFGLoc) -> Tuple[Optional[CFGLoc], Optional[
     if (
         isinstance(loc.node, nodes.Arguments)
         or (isinstance(parent, nodes.For) and loc.node == parent.target)
-        or (isinstance(parent, nodes.ExceptHandler) and loc.node == parent.name)
+        or (isinstance(parent, nodes.ExceptHandler) and loc.node in (parent.type, parent.name))
         or (isinstance(parent, nodes.MatchCase) and loc.node in (parent.pattern, parent.guard))
     ):
         return None, None
diff --git a/edulint/linting/analyses/cfg/visitor.py b/edulint/linting/analyses/cfg/visitor.py
index 14a8542..7f5c21b 100644
--- a/edulint/linting/analyses/cfg/visitor.py
+++ b/edulint/linting/analyses/cfg/visitor.py
@@ -445,6 +445,8 @@ class CFGVisitor:
 
         for handler, h in zip(node.handlers, handler_blocks):
             self._current_block = h
+            if handler.type is not None:
+                h.add_statement(handler.type)
             if handler.name is not None:  # The name assigned to the caught exception.
                 handler.name.accept(self)
             for child in handler.body:
-- 
2.43.0


From d1652487b7cf5ba2ba423bfc2148ab2b8d989575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 36/85] fix: compare variable events by identity

---
 edulint/linting/analyses/var_events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/var_events.py b/edulint/linting/analyses/var_events.py
index 8e3fd1b..a8e401e 100644
--- a/edulint/linting/analyses/var_events.py
+++ b/edulint/linting/analyses/var_events.py
@@ -33,7 +33,7 @@ class VarEventType(Enum):
     DELETE = auto()
 
 
-@dataclass
+@dataclass(eq=False)  # events refer to one another, comparing them by value need not end
 class VarEvent:
     """Class for storing information on an event that happened to a variable at a given place in code.
 
-- 
2.43.0


From b023ee0a3ac0dfd0ea1a0a39c4ccdc15e7066874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 37/85] fix: recognize calls of own functions named locals or
 globals

---
 edulint/linting/analyses/variable_scope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index d5134a9..5ff3705 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -399,12 +399,13 @@ class VarEventListener(BaseVisitor[None]):
         return self.visit_import(node)
 
     def visit_call(self, node: nodes.Call):
+        self.visit_many(node.get_children())  # so that it is known what the name refers to
         if node.func.as_string() in ("locals", "globals") and is_builtin(node.func):
             raise UnknowableLocalsException(
                 f"call to {node.func.as_string()} on line {node.fromlineno} in {node.root().file}; "
                 " unable to determine variable scopes. This may disable some detectors."
             )
-        return self.visit_many(node.get_children())
+        return self.default
 
     def visit_name(self, node: nodes.Name) -> None:
         self._add_var_event(node.name, node, VarEventType.READ)
-- 
2.43.0


From a1c6deb1087a285b88376638e4c2bc95dc8f7d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:32 +0000
Subject: [PATCH 38/85] fix: link a raise in a module with the end of its graph

---
 edulint/linting/analyses/cfg/visitor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edulint/linting/analyses/cfg/visitor.py b/edulint/linting/analyses/cfg/visitor.py
index 7f5c21b..11519bc 100644
--- a/edulint/linting/analyses/cfg/visitor.py
+++ b/edulint/linting/analyses/cfg/visitor.py
@@ -82,9 +82,13 @@ class CFGVisitor:
         self._current_cfg = self.cfgs[module]
         self._current_block = self._current_cfg.start
 
+        self._control_boundaries.append((module, {nodes.Raise.__name__: self._current_cfg.end}))
+
         for child in module.body:
             child.accept(self)
 
+        self._control_boundaries.pop()
+
         self._current_cfg.start.add_CF_statement(module)
 
         self._current_cfg.link_or_merge(self._current_block, self._current_cfg.end)
-- 
2.43.0


From f3809dd08c72afe0d90442a6820d93d39ac5cdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:32 +0000
Subject: [PATCH 39/85] fix: evaluate guards of match cases only if the pattern
 matches

---
 edulint/linting/analyses/cfg/visitor.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/edulint/linting/analyses/cfg/visitor.py b/edulint/linting/analyses/cfg/visitor.py
index 11519bc..ad988cd 100644
--- a/edulint/linting/analyses/cfg/visitor.py
+++ b/edulint/linting/analyses/cfg/visitor.py
@@ -328,28 +328,32 @@ class CFGVisitor:
         self._current_block.add_statement(node.subject)
         self._current_block.add_CF_statement(node)
 
-        previous_case_block = self._current_block
+        unmatched_blocks = [self._current_block]
         after_match_block = self._current_cfg.create_block()
-        may_match_nothing = True
 
         for case in node.cases:
-            case_block = self._current_cfg.create_block(previous_case_block)
+            case_block = self._current_cfg.create_block()
+            for block in unmatched_blocks:
+                self._current_cfg.link(block, case_block)
             case_block.add_statement(case.pattern)
+            case_block.add_CF_statement(case)
+
+            unmatched_blocks = []
+            if not isinstance(case.pattern, nodes.MatchAs) or case.pattern.pattern is not None:
+                unmatched_blocks.append(case_block)
             if case.guard is not None:
+                # evaluated only if the pattern matches
+                case_block = self._current_cfg.create_block(case_block)
                 case_block.add_statement(case.guard)
-            elif isinstance(case.pattern, nodes.MatchAs) and case.pattern.pattern is None:
-                may_match_nothing = False
-            case_block.add_CF_statement(case)
+                unmatched_blocks.append(case_block)
 
             self._current_block = self._current_cfg.create_block(case_block)
             for child in case.body:
                 child.accept(self)
             self._current_cfg.link_or_merge(self._current_block, after_match_block)
 
-            previous_case_block = case_block
-
-        if may_match_nothing:
-            self._current_cfg.link_or_merge(previous_case_block, after_match_block)
+        for block in unmatched_blocks:
+            self._current_cfg.link(block, after_match_block)
         self._current_block = after_match_block
 
     def visit_break(self, node: nodes.Break) -> None:
-- 
2.43.0


From b6b4c1ee76d6d65b222a35b1d31712acfa592930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:32 +0000
Subject: [PATCH 40/85] fix: continue jumps through nested finally clauses

---
 edulint/linting/analyses/cfg/visitor.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/edulint/linting/analyses/cfg/visitor.py b/edulint/linting/analyses/cfg/visitor.py
index ad988cd..0b7f250 100644
--- a/edulint/linting/analyses/cfg/visitor.py
+++ b/edulint/linting/analyses/cfg/visitor.py
@@ -49,6 +49,8 @@ class CFGVisitor:
         self._current_block = None
         self._control_boundaries = []
         self._try_depth = 0
+        # kinds of jumps that continue after finalbody of the try statements being visited
+        self._jumps_through: Dict[nodes.NodeNG, Dict[str, None]] = {}
 
     def __getattr__(self, attr: str):
         if attr.startswith("visit_"):
@@ -390,6 +392,8 @@ class CFGVisitor:
             if jump not in exits:
                 continue
 
+            if boundary in self._jumps_through:
+                self._jumps_through[boundary][jump] = None
             yield exits[jump]
             if not isinstance(boundary, nodes.ExceptHandler) or _surely_catches(boundary, node):
                 break
@@ -416,6 +420,7 @@ class CFGVisitor:
         if node.finalbody != []:
             jumps = (nodes.Break, nodes.Continue, nodes.Return, nodes.Raise)
             self._control_boundaries.append((node, {jump.__name__: finally_block for jump in jumps}))
+            self._jumps_through[node] = {nodes.Raise.__name__: None}
 
         # Reversed to give precedence to the first handler of those that catch an exception
         for handler, h in zip(reversed(node.handlers), reversed(handler_blocks)):
@@ -478,18 +483,12 @@ class CFGVisitor:
             raising_blocks += handler_blocks
             raising_blocks += self._get_raising_blocks(node_block, first_inner_id)
             self._link_all(raising_blocks, finally_block)
-            jumps_through = {nodes.Raise.__name__: None}
-            for edge in finally_block.predecessors:
-                last = edge.source.locs[-1].node
-                if isinstance(last, (nodes.Break, nodes.Continue, nodes.Return)):
-                    jumps_through[type(last).__name__] = None
-
             self._current_block = finally_block
             for child in node.finalbody:
                 child.accept(self)
 
             after_finally = [end_block]
-            for jump in jumps_through:
+            for jump in self._jumps_through.pop(node):
                 for target in self._get_jump_targets(jump):
                     if target not in after_finally:
                         after_finally.append(target)
-- 
2.43.0


From 5d3e0aeca29a89ab80fd2227eb21bec658c6ce0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:32 +0000
Subject: [PATCH 41/85] fix: let following except* handlers run after one
 another

---
 edulint/linting/analyses/cfg/visitor.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/cfg/visitor.py b/edulint/linting/analyses/cfg/visitor.py
index 0b7f250..dc736e6 100644
--- a/edulint/linting/analyses/cfg/visitor.py
+++ b/edulint/linting/analyses/cfg/visitor.py
@@ -456,7 +456,17 @@ class CFGVisitor:
                 child.accept(self)
             self._current_cfg.link_or_merge(self._current_block, finally_block)
 
-        for handler, h in zip(node.handlers, handler_blocks):
+        for i, (handler, h) in enumerate(zip(node.handlers, handler_blocks)):
+            # Any of the handlers after an except* may handle another part of the same exception
+            # group, even if this one raises
+            next_handlers = []
+            if isinstance(node, nodes.TryStar):
+                next_handlers = list(zip(node.handlers, handler_blocks))[i + 1 :]
+            for next_handler, next_h in next_handlers:
+                self._control_boundaries.append((next_handler, {nodes.Raise.__name__: next_h}))
+            self._try_depth += 1 if next_handlers != [] else 0
+            first_handler_id = self._current_cfg.block_count
+
             self._current_block = h
             if handler.type is not None:
                 h.add_statement(handler.type)
@@ -472,6 +482,11 @@ class CFGVisitor:
             else:
                 h.add_CF_statement(handler)
 
+            self._try_depth -= 1 if next_handlers != [] else 0
+            for _next_handler, next_h in next_handlers:
+                self._control_boundaries.pop()
+                self._link_all([h] + self._get_raising_blocks(h, first_handler_id), next_h)
+
             self._current_cfg.link_or_merge(self._current_block, finally_block)
 
         if node.finalbody == []:
@@ -540,6 +555,8 @@ def _surely_catches(handler: nodes.ExceptHandler, raised: Optional[nodes.NodeNG]
     handler."""
     if handler.type is None:
         return True
+    if isinstance(handler.parent, nodes.TryStar):
+        return False
 
     caught = handler.type.elts if isinstance(handler.type, nodes.Tuple) else [handler.type]
     names = [exc.name for exc in caught if isinstance(exc, nodes.Name)]
-- 
2.43.0


From a68ec1de1f01c6fd7fcac9c16c7b91a3b613feed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 42/85] fix: include all statements of a with block among its
 descendants

---
 edulint/linting/analyses/cfg/utils.py | 65 +++++----------------------
 1 file changed, 11 insertions(+), 54 deletions(-)

diff --git a/edulint/linting/analyses/cfg/utils.py b/edulint/linting/analyses/cfg/utils.py
index a0c6af6..85ddef2 100644
--- a/edulint/linting/analyses/cfg/utils.py
+++ b/edulint/linting/analyses/cfg/utils.py
@@ -1,6 +1,7 @@
 from typing import Generator, Optional, Callable, List, Tuple, Iterator, Union
 from collections import defaultdict
 from enum import Enum
+from itertools import groupby
 
 from astroid import nodes
 
@@ -542,75 +543,31 @@ def get_locs_in_and_after(locs: List[CFGLoc]) -> Iterator[Tuple[bool, CFGBlock,
     yield from get_locs_in_and_after_from(locs, locs)
 
 
-def _get_conseq_partition(block_locs, block):
-    same_block_locs = block_locs.get(block, [])
-
-    conseqs = []
-    conseq = []
-
-    for loc in same_block_locs:
-        if len(conseq) == 0 or conseq[-1].pos + 1 == loc.pos:
-            conseq.append(loc)
-        else:
-            conseqs.append(conseq)
-            conseq = [loc]
-
-    if len(conseq) > 0:
-        conseqs.append(conseq)
-
-    return conseqs
-
-
 def get_locs_in_and_after_from(
     froms: List[CFGLoc], locs: List[CFGLoc]
 ) -> Iterator[Tuple[bool, CFGBlock, int, int]]:
     loc_node_set = set(s.node for s in locs)
 
+    def is_in(loc):
+        return len(loc_node_set & (set(loc.node.node_ancestors()) | {loc.node})) > 0
+
     def stop_on(block, from_pos, to_pos):
-        # it is enough to check last; locs_after inside a loc's block
-        # are handled separately
-        last = block.locs[to_pos - 1].node
-        return len(loc_node_set & (set(last.node_ancestors()) | {last})) == 0
+        # it is enough to check last; locs_after inside a block are handled separately
+        return not is_in(block.locs[to_pos - 1])
 
     block_froms = defaultdict(list)
     for loc in sorted(froms, key=lambda loc: loc.pos):
         block_froms[loc.block].append(loc)
 
-    block_locs = defaultdict(list)
-    for loc in sorted(locs, key=lambda loc: loc.pos):
-        unwrapped = unwrap(loc)
-        if unwrapped == loc:
-            block_locs[loc.block].append(loc)
-            continue
-
-        for i in range(unwrapped.pos, len(unwrapped.block.locs)):
-            subloc = unwrapped.block.locs[i]
-            assert subloc.node != loc.node
-            if loc.node in subloc.node.node_ancestors():
-                block_locs[loc.block].append(subloc)
-            else:
-                break
-
     for succ_block, from_pos, to_pos in successor_blocks_from_locs(
         [same_block_locs[0] for same_block_locs in block_froms.values()],
         stop_on_block=stop_on,
         include_start=True,
         include_end=True,
     ):
-        stop = stop_on(succ_block, from_pos, to_pos)
-        conseqs = _get_conseq_partition(block_locs, succ_block)
-
-        if len(conseqs) == 0 or (
-            len(conseqs) == 1 and conseqs[0][-1].pos + 1 >= len(succ_block.locs)
+        # a block may continue after the end of a statement it started or continued in
+        for are_in, group in groupby(
+            range(from_pos, to_pos), key=lambda pos: is_in(succ_block.locs[pos])
         ):
-            yield not stop, succ_block, from_pos, to_pos
-            continue
-
-        for i, conseq in enumerate(conseqs):
-            yield True, succ_block, conseq[0].pos, conseq[-1].pos + 1
-
-            if i < len(conseqs) - 1:
-                next = conseqs[i + 1]
-                yield False, succ_block, conseq[-1].pos + 1, next[0].pos
-            if i == len(conseqs) - 1 and conseq[-1].pos + 1 < len(succ_block.locs):
-                yield False, succ_block, conseq[-1].pos + 1, len(succ_block.locs)
+            positions = list(group)
+            yield are_in, succ_block, positions[0], positions[-1] + 1
-- 
2.43.0


From f14d0640ad52e40ff2588d0c17e0cfdd37e85196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 43/85] fix: evaluate arguments of a method call before it
 modifies its object

---
 edulint/linting/analyses/variable_scope.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index 5ff3705..b842412 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -400,6 +400,8 @@ class VarEventListener(BaseVisitor[None]):
 
     def visit_call(self, node: nodes.Call):
         self.visit_many(node.get_children())  # so that it is known what the name refers to
+        if isinstance(node.func, nodes.Attribute):
+            self._add_method_event(node.func)  # arguments are evaluated before the call
         if node.func.as_string() in ("locals", "globals") and is_builtin(node.func):
             raise UnknowableLocalsException(
                 f"call to {node.func.as_string()} on line {node.fromlineno} in {node.root().file}; "
@@ -416,15 +418,9 @@ class VarEventListener(BaseVisitor[None]):
             self._add_modify_event(node)
 
     def visit_attribute(self, node: nodes.Attribute) -> None:
-        stripped = strip_to_name(node)
-        if (
-            isinstance(node.parent, nodes.Call)
-            and VarEventListener.NON_PURE_METHODS.match(node.attrname)
-            and stripped is not None
-        ):
-            self._add_var_event(stripped.name, stripped, VarEventType.MODIFY)
-
-        return self.visit_many(node.get_children())
+        self.visit_many(node.get_children())
+        if isinstance(node.parent, nodes.Call) and node != node.parent.func:
+            self._add_method_event(node)
 
     def visit_assignattr(self, node: nodes.AssignAttr) -> None:
         self.visit_many(node.get_children())
@@ -434,6 +430,10 @@ class VarEventListener(BaseVisitor[None]):
         self.visit_many(node.get_children())
         self._add_modify_event(node)
 
+    def _add_method_event(self, node: nodes.Attribute) -> None:
+        if VarEventListener.NON_PURE_METHODS.match(node.attrname):
+            self._add_modify_event(node)
+
     def _add_modify_event(self, node: nodes.NodeNG) -> None:
         stripped = strip_to_name(node)
         if stripped is not None:
-- 
2.43.0


From 24826590725d25d2bd1b48a82b7abef1b8ab5001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 44/85] fix: keep definitions when a for loop ends or a pattern
 does not match

---
 edulint/linting/analyses/cfg/graph.py       |  8 ++++---
 edulint/linting/analyses/cfg/visitor.py     | 23 ++++++++++++++-------
 edulint/linting/analyses/data_dependency.py | 20 ++++++++++++++++--
 3 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/edulint/linting/analyses/cfg/graph.py b/edulint/linting/analyses/cfg/graph.py
index 999514d..58c7285 100644
--- a/edulint/linting/analyses/cfg/graph.py
+++ b/edulint/linting/analyses/cfg/graph.py
@@ -46,10 +46,12 @@ class ControlFlowGraph:
             self.link_or_merge(pred, new_block, edge_label)
         return new_block
 
-    def link(self, source: CFGBlock, target: CFGBlock) -> None:
+    def link(
+        self, source: CFGBlock, target: CFGBlock, edge_label: Optional[Any] = None
+    ) -> None:
         """Link source to target."""
         if not source.is_jump():
-            CFGEdge(source, target)
+            CFGEdge(source, target, edge_label)
 
     def link_or_merge(
         self, source: CFGBlock, target: CFGBlock, edge_label: Optional[Any] = None
@@ -92,7 +94,7 @@ class ControlFlowGraph:
         if source.locs == []:
             for edge in source.predecessors:
                 for t in targets:
-                    CFGEdge(edge.source, t)
+                    CFGEdge(edge.source, t, edge.label)
                 edge.source.successors.remove(edge)
             source.predecessors = []
             self.unreachable_blocks.remove(source)
diff --git a/edulint/linting/analyses/cfg/visitor.py b/edulint/linting/analyses/cfg/visitor.py
index dc736e6..45def56 100644
--- a/edulint/linting/analyses/cfg/visitor.py
+++ b/edulint/linting/analyses/cfg/visitor.py
@@ -299,7 +299,7 @@ class CFGVisitor:
         )
 
         # Handle "body" branch
-        body_block = self._current_cfg.create_block(test_block)
+        body_block = self._current_cfg.create_block(test_block, edge_label="True")
         self._current_block = body_block
         for child in node.body:
             child.accept(self)
@@ -310,7 +310,7 @@ class CFGVisitor:
         self._control_boundaries.pop()
 
         # Handle "else" branch
-        else_block = self._current_cfg.create_block(test_block)
+        else_block = self._current_cfg.create_block(test_block, edge_label="False")
         self._current_block = else_block
         for child in node.orelse:
             child.accept(self)
@@ -336,7 +336,7 @@ class CFGVisitor:
         for case in node.cases:
             case_block = self._current_cfg.create_block()
             for block in unmatched_blocks:
-                self._current_cfg.link(block, case_block)
+                self._current_cfg.link(block, case_block, edge_label="False")
             case_block.add_statement(case.pattern)
             case_block.add_CF_statement(case)
 
@@ -355,7 +355,7 @@ class CFGVisitor:
             self._current_cfg.link_or_merge(self._current_block, after_match_block)
 
         for block in unmatched_blocks:
-            self._current_cfg.link(block, after_match_block)
+            self._current_cfg.link(block, after_match_block, edge_label="False")
         self._current_block = after_match_block
 
     def visit_break(self, node: nodes.Break) -> None:
@@ -410,6 +410,7 @@ class CFGVisitor:
         else:
             raising_blocks = [edge.source for edge in self._current_block.predecessors]
         node_block = self._current_block
+        labels = {edge.source: edge.label for edge in node_block.predecessors}
 
         handler_blocks = [self._current_cfg.create_block() for _ in node.handlers]
         finally_block = self._current_cfg.create_block()
@@ -441,7 +442,7 @@ class CFGVisitor:
         end_body = self._current_block
         raising_blocks += self._get_raising_blocks(node_block, first_inner_id)
         for h in handler_blocks:
-            self._link_all(raising_blocks, h)
+            self._link_all(raising_blocks, h, labels)
 
         # Exceptions in the rest of the statement matter only if there is finalbody to execute
         self._try_depth += 1 if node.finalbody != [] else 0
@@ -497,7 +498,7 @@ class CFGVisitor:
 
             raising_blocks += handler_blocks
             raising_blocks += self._get_raising_blocks(node_block, first_inner_id)
-            self._link_all(raising_blocks, finally_block)
+            self._link_all(raising_blocks, finally_block, labels)
             self._current_block = finally_block
             for child in node.finalbody:
                 child.accept(self)
@@ -520,14 +521,20 @@ class CFGVisitor:
             and not isinstance(block.locs[-1].node, (nodes.Raise, nodes.Break, nodes.Continue))
         ]
 
-    def _link_all(self, sources: List[CFGBlock], target: CFGBlock) -> None:
+    def _link_all(
+        self,
+        sources: List[CFGBlock],
+        target: CFGBlock,
+        labels: Optional[Dict[CFGBlock, Any]] = None,
+    ) -> None:
         for source in sources:
             if (
                 source is not target
                 and source.locs != []
                 and all(edge.target is not target for edge in source.successors)
             ):
-                self._current_cfg.link(source, target)
+                label = labels.get(source) if labels is not None else None
+                self._current_cfg.link(source, target, label)
 
     def visit_trystar(self, node: nodes.TryStar) -> None:
         self.visit_try(node)
diff --git a/edulint/linting/analyses/data_dependency.py b/edulint/linting/analyses/data_dependency.py
index 6e1f035..870d471 100644
--- a/edulint/linting/analyses/data_dependency.py
+++ b/edulint/linting/analyses/data_dependency.py
@@ -5,7 +5,7 @@ from queue import deque
 
 from astroid import nodes
 
-from edulint.linting.analyses.cfg.graph import CFGLoc, CFGBlock
+from edulint.linting.analyses.cfg.graph import CFGLoc, CFGBlock, CFGEdge
 from edulint.linting.analyses.cfg.utils import (
     successor_blocks_from_locs,
     predecessors_from_loc,
@@ -260,6 +260,16 @@ def collect_reaching_definitions(  # blocks fun gen kills
 
         return blocks
 
+    def skips_binding(edge: CFGEdge) -> bool:
+        """the target of a for loop is not assigned when the loop ends, names in a pattern are not
+        assigned if it does not match"""
+        last_node = edge.source.locs[-1].node
+        parent = last_node.parent
+        return edge.label == "False" and (
+            (isinstance(parent, nodes.For) and last_node == parent.target)
+            or (isinstance(parent, nodes.MatchCase) and last_node == parent.pattern)
+        )
+
     def collect_computed_kills(original_gens_kills, computed_kills, blocks, init_occupied_blocks):
         for block_i in range(len(blocks)):
             _gens, kills = original_gens_kills[init_occupied_blocks + block_i]
@@ -324,12 +334,18 @@ def collect_reaching_definitions(  # blocks fun gen kills
                     continue
                 j = blocks[edge.target]
                 child_kills = all_parent_kills[init_occupied_blocks + j]
-                for var_i, val in updated:
+                for var_i, val in parent_kills.items() if skips_binding(edge) else updated:
                     if val & child_kills[var_i] != val:
                         child_kills[var_i] |= val
                         if (j, edge.target) not in to_process:
                             to_process.append((j, edge.target))
 
+        for block, i in blocks.items():
+            if any(skips_binding(edge) for edge in block.successors):
+                computed_kill = computed_kills[init_occupied_blocks + i]
+                for var_i, val in all_parent_kills[init_occupied_blocks + i].items():
+                    computed_kill[var_i] |= val
+
     def connect_events(index_to_block, all_parent_kills, original_gens_kills):
         for block_i in range(len(index_to_block)):
             parent_kills = all_parent_kills[block_i]
-- 
2.43.0


From 21d914abcb72aa72dd97e765e5827c4a7d173f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 45/85] fix: tell destructured parts of an assigned tuple apart

---
 edulint/linting/analyses/data_dependency.py | 3 ++-
 edulint/linting/analyses/types.py           | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/data_dependency.py b/edulint/linting/analyses/data_dependency.py
index 870d471..8318ee6 100644
--- a/edulint/linting/analyses/data_dependency.py
+++ b/edulint/linting/analyses/data_dependency.py
@@ -634,11 +634,12 @@ def get_assigned_expressions(
                 expr = assigning.value
 
                 require_destructuring = False
-                for child in reversed(parents):
+                for child in reversed(parents[:-1]):
                     if (
                         not isinstance(child.parent, nodes.Tuple)
                         or not isinstance(expr, nodes.Tuple)
                         or len(child.parent.elts) != len(expr.elts)
+                        or any(isinstance(e, nodes.Starred) for e in expr.elts + child.parent.elts)
                     ):
                         require_destructuring = True
                         break
diff --git a/edulint/linting/analyses/types.py b/edulint/linting/analyses/types.py
index 9643548..7b81adc 100644
--- a/edulint/linting/analyses/types.py
+++ b/edulint/linting/analyses/types.py
@@ -249,6 +249,9 @@ class TypeVisitor(BaseVisitor[Types]):
 
     def visit_name(self, node: nodes.Name):
         result = Types.empty()
+        assigned_whole = list(
+            get_assigned_expressions(node, include_nodes=[], include_destructuring=False)
+        )
         for assigned in get_assigned_expressions(
             node, include_nodes=[nodes.For, nodes.Comprehension], include_destructuring=True
         ):
@@ -258,7 +261,7 @@ class TypeVisitor(BaseVisitor[Types]):
             if isinstance(assigned.parent, (nodes.For, nodes.Comprehension)):
                 if get_range_params(assigned) is not None:
                     result |= Types.int()
-            else:
+            elif assigned in assigned_whole:
                 result |= self.visit(assigned)
         return result
 
-- 
2.43.0


From 9abdc99a4383557c595de5ce25befa39fdbedefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:23 +0000
Subject: [PATCH 46/85] fix: parenthesise conditional expressions in suggested
 conditions

---
 edulint/linting/checkers/simplifiable_if.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/simplifiable_if.py b/edulint/linting/checkers/simplifiable_if.py
index 55e54a4..01e99e2 100644
--- a/edulint/linting/checkers/simplifiable_if.py
+++ b/edulint/linting/checkers/simplifiable_if.py
@@ -440,6 +440,13 @@ class SimplifiableIf(BaseChecker):  # type: ignore
                 args=(get_name(get_assigned_to(then)[0]), new_cond),
             )
 
+    def _get_operand(self, node: nodes.NodeNG, is_standalone: bool) -> str:
+        if isinstance(node, nodes.NamedExpr) or (
+            not is_standalone and isinstance(node, (nodes.IfExp, nodes.Lambda))
+        ):
+            return f"({node.as_string()})"
+        return node.as_string()
+
     def _get_refactored(self, *args: Union[str, nodes.NodeNG]) -> str:
         result = []
         i = 0
@@ -469,7 +476,7 @@ class SimplifiableIf(BaseChecker):  # type: ignore
                     result.append(f"({next_.as_string()})")
                     i += 1
             elif isinstance(arg, nodes.NodeNG):
-                result.append(arg.as_string())
+                result.append(self._get_operand(arg, len(args) == 1))
                 i += 1
 
         return " ".join(result)
-- 
2.43.0


From 327329391d62bf6df3b3d4c700ebcb60988d96a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:23 +0000
Subject: [PATCH 47/85] fix: parenthesise operands in suggestions about groups
 of comparisons

---
 edulint/linting/checkers/simplifiable_if.py | 24 +++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/edulint/linting/checkers/simplifiable_if.py b/edulint/linting/checkers/simplifiable_if.py
index 01e99e2..31b5ce2 100644
--- a/edulint/linting/checkers/simplifiable_if.py
+++ b/edulint/linting/checkers/simplifiable_if.py
@@ -178,6 +178,16 @@ def add_brackets_if_composed(node: nodes.NodeNG, is_standalone: bool) -> str:
     )
 
 
+def as_comparison_operand(node: nodes.NodeNG) -> str:
+    """The expression as a string, in parentheses if a comparison binds tighter than it."""
+    if isinstance(
+        node, (nodes.Compare, nodes.BoolOp, nodes.IfExp, nodes.Lambda, nodes.NamedExpr)
+    ) or (isinstance(node, nodes.UnaryOp) and node.op == "not"):
+        return f"({node.as_string()})"
+
+    return node.as_string()
+
+
 def get_boolOp_as_condition(operands: List[z3.ExprRef], is_or: bool):
     return z3.Or(operands) if is_or else z3.And(operands)
 
@@ -1718,7 +1728,9 @@ class SimplifiableIf(BaseChecker):  # type: ignore
             if len(current_group) < 2:
                 continue
 
-            self._suggestion_for_group_of_boolops(expr1.as_string(), current_group, node)
+            self._suggestion_for_group_of_boolops(
+                as_comparison_operand(expr1), current_group, node
+            )
 
     def _update_comparisons(
         self,
@@ -2245,7 +2257,7 @@ class SimplifiableIf(BaseChecker):  # type: ignore
                 comparison_operands.append(operand)
                 self._update_comparisons(
                     comparisons_with_numbers,
-                    operand[0].as_string(),
+                    as_comparison_operand(operand[0]),
                     operand[1],
                     str(operand[2]),
                     value.ops[0][0] != operand[1],
@@ -2253,16 +2265,16 @@ class SimplifiableIf(BaseChecker):  # type: ignore
             elif self._is_comparison_not_between_numbers(value):
                 self._update_comparisons(
                     comparisons,
-                    value.left.as_string(),
+                    as_comparison_operand(value.left),
                     value.ops[0][0],
-                    value.ops[0][1].as_string(),
+                    as_comparison_operand(value.ops[0][1]),
                     False,
                 )
                 self._update_comparisons(
                     comparisons,
-                    value.ops[0][1].as_string(),
+                    as_comparison_operand(value.ops[0][1]),
                     self.SWITCHED_COMPARATOR[value.ops[0][0]],
-                    value.left.as_string(),
+                    as_comparison_operand(value.left),
                     True,
                 )
             elif node_is_or and self._is_conjunction_of_two_equalities(value):
-- 
2.43.0


From 8f5a0390601302485bad92d61e6aded124d530fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:23 +0000
Subject: [PATCH 48/85] fix: recognize calls of abs, max and min by what they
 call

---
 edulint/linting/checkers/simplifiable_if.py | 35 +++++++++++++++------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/edulint/linting/checkers/simplifiable_if.py b/edulint/linting/checkers/simplifiable_if.py
index 31b5ce2..ffc6a32 100644
--- a/edulint/linting/checkers/simplifiable_if.py
+++ b/edulint/linting/checkers/simplifiable_if.py
@@ -187,6 +187,26 @@ def as_comparison_operand(node: nodes.NodeNG) -> str:
 
     return node.as_string()
 
+def is_call_of(function: str, node: nodes.NodeNG) -> bool:
+    return (
+        isinstance(node, nodes.Call)
+        and isinstance(node.func, nodes.Name)
+        and node.func.name == function
+    )
+
+
+def as_arguments_of(function: str, expression: ExprRepresentation) -> str:
+    """
+    The expression as an argument (or arguments) of the function (max or min),
+    if the expression itself is a call of the function, then its arguments.
+    """
+    node = extract_node(expression)
+    if is_call_of(function, node) and len(node.args) > 1 and len(node.keywords) == 0:
+        return ", ".join(arg.as_string() for arg in node.args)
+
+    return expression
+
+
 
 def get_boolOp_as_condition(operands: List[z3.ExprRef], is_or: bool):
     return z3.Or(operands) if is_or else z3.And(operands)
@@ -1501,7 +1521,7 @@ class SimplifiableIf(BaseChecker):  # type: ignore
         return [cmp2, const2]
 
     def _add_abs_if_necessary(self, expr_string: str) -> str:
-        if expr_string.startswith("abs("):
+        if is_call_of("abs", extract_node(expr_string)):
             return expr_string + " "
 
         return "abs(" + expr_string + ") "
@@ -1797,16 +1817,13 @@ class SimplifiableIf(BaseChecker):  # type: ignore
         was_switched: List[bool],
     ) -> str:
         """
-        the <function> should contain either "max(" or "min("
+        the <function> should contain either "max" or "min"
         """
-        result: List[str] = [function]
+        result: List[str] = [function, "("]
         all_switched_or_all_not_switched = True
 
         for i in range(len(expressions)):
-            if expressions[i].startswith(function):
-                result.append(expressions[i][4:-1])
-            else:
-                result.append(expressions[i])
+            result.append(as_arguments_of(function, expressions[i]))
 
             all_switched_or_all_not_switched &= was_switched[i] == was_switched[0]
 
@@ -1888,12 +1905,12 @@ class SimplifiableIf(BaseChecker):  # type: ignore
         )
 
         func = (
-            "max("
+            "max"
             if (
                 (node.op == "and" and comparison[0] == ">")
                 or (node.op == "or" and comparison[0] == "<")
             )
-            else "min("
+            else "min"
         )
 
         self.add_message(
-- 
2.43.0


From 9cc5a10e923a14e4bc32807adb77f0ef3fc0f88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:23 +0000
Subject: [PATCH 49/85] fix: do not merge branches which change a variable in
 place

---
 edulint/linting/checkers/simplifiable_if.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/checkers/simplifiable_if.py b/edulint/linting/checkers/simplifiable_if.py
index ffc6a32..792b7e6 100644
--- a/edulint/linting/checkers/simplifiable_if.py
+++ b/edulint/linting/checkers/simplifiable_if.py
@@ -187,6 +187,7 @@ def as_comparison_operand(node: nodes.NodeNG) -> str:
 
     return node.as_string()
 
+
 def is_call_of(function: str, node: nodes.NodeNG) -> bool:
     return (
         isinstance(node, nodes.Call)
@@ -207,7 +208,6 @@ def as_arguments_of(function: str, expression: ExprRepresentation) -> str:
     return expression
 
 
-
 def get_boolOp_as_condition(operands: List[z3.ExprRef], is_or: bool):
     return z3.Or(operands) if is_or else z3.And(operands)
 
@@ -575,7 +575,7 @@ class SimplifiableIf(BaseChecker):  # type: ignore
         if isinstance(node1, nodes.Return):
             return node1.value is not None and node2.value is not None
 
-        if is_any_assign(node1) and not isinstance(node1, nodes.For):
+        if is_any_assign(node1) and not isinstance(node1, (nodes.For, nodes.AugAssign)):
             assigned_to1 = get_assigned_to(node1)
             assigned_to2 = get_assigned_to(node2)
             return (
-- 
2.43.0


From a79375ae17250bdf8a177ad9260c6fe10751e2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:37 +0000
Subject: [PATCH 50/85] fix: forget where modules were found before checking
 again in the same process

---
 edulint/linting/linting.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index 9d67fee..d4a99d0 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -202,16 +202,23 @@ def lint_flake8(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
 
 def forget_parsed_modules() -> None:
     """Makes astroid parse modules anew in the next run, as they may have changed since."""
+    from importlib import invalidate_caches
+
     from astroid import MANAGER
     from astroid.inference_tip import clear_inference_tip_cache
     from astroid.interpreter._import.spec import _find_spec
+    from astroid.interpreter._import.util import is_namespace
+    from astroid.modutils import _cache_normalize_path_
 
     for name, module in list(MANAGER.astroid_cache.items()):
         if name and module.file is not None:
             del MANAGER.astroid_cache[name]
     MANAGER._mod_file_cache.clear()
     _find_spec.cache_clear()
+    is_namespace.cache_clear()
+    _cache_normalize_path_.cache_clear()
     clear_inference_tip_cache()
+    invalidate_caches()
 
 
 def discover_files(
-- 
2.43.0


From 5ce8b13db15f059dae792a6e6dc7266a145344bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 51/85] fix: round quotients of negative divisors down in
 conditions given to Z3

---
 edulint/linting/analyses/z3_analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/z3_analysis.py b/edulint/linting/analyses/z3_analysis.py
index fc1ebca..0dccbb5 100644
--- a/edulint/linting/analyses/z3_analysis.py
+++ b/edulint/linting/analyses/z3_analysis.py
@@ -327,7 +327,9 @@ def convert_condition_to_z3_expression(
             modulo = get_const_value(node.right)
             z3_expr = left % get_const_value(node.right) if modulo > 1 else None
         elif node.op == "//":
-            z3_expr = left / get_const_value(node.right)
+            # z3 rounds the quotient up if the divisor is negative
+            divisor = get_const_value(node.right)
+            z3_expr = left / divisor if divisor > 0 else -left / -divisor
         elif node.op == "/":
             z3_expr = left / float(get_const_value(node.right))
         elif node.op == "+":
-- 
2.43.0


From ca07d829b5188fc3f39a44a80f43fbd179ecf1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 52/85] fix: guess types of arithmetic with floats and of
 augmented assignments

---
 edulint/linting/analyses/types.py | 121 +++++++++++++++++++-----------
 1 file changed, 78 insertions(+), 43 deletions(-)

diff --git a/edulint/linting/analyses/types.py b/edulint/linting/analyses/types.py
index 7b81adc..47eba9b 100644
--- a/edulint/linting/analyses/types.py
+++ b/edulint/linting/analyses/types.py
@@ -32,6 +32,7 @@ class Type(Enum):
         return self.value
 
 
+SEQUENCE_TYPES = [Type.STRING, Type.LIST, Type.TUPLE]
 IMMUTABLE_TYPES = [Type.BOOL, Type.FLOAT, Type.INT, Type.STRING, Type.TUPLE]
 
 
@@ -92,12 +93,27 @@ class Types(metaclass=MetaTypes):
     def any_container(self):
         return any(self.has(t) for t in (Type.STRING, Type.LIST, Type.TUPLE, Type.SET, Type.DICT))
 
+    @staticmethod
+    def only(types: "Types", wanted: List[Type]) -> "Types":
+        return reduce(operator.or_, (Types(t) for t in types.get() if t in wanted), Types.empty())
+
+    @staticmethod
+    def arithmetic(left: "Types", right: "Types") -> "Types":
+        """Possible types of a result of an arithmetic operation on numbers."""
+        result = Types.empty()
+        if left.has(Type.FLOAT) or right.has(Type.FLOAT):
+            result |= Types.float()
+        if all(
+            len(t) == 0 or t.has(Type.INT) or t.has(Type.BOOL) for t in (left, right)
+        ) and any(t.has(Type.INT) or t.has(Type.BOOL) for t in (left, right)):
+            result |= Types.int()
+        return result
+
     def __repr__(self):
         return f"({' | '.join(t.name for t in self.get())})"
 
 
 BUILTIN_TYPES = {
-    "abs": Types.int(),
     "all": Types.bool(),
     "any": Types.bool(),
     "ascii": Types.string(),
@@ -119,7 +135,6 @@ BUILTIN_TYPES = {
     "ord": Types.int(),
     "pow": Types.int() | Types.float(),
     "repr": Types.string(),
-    "round": Types.int(),
     "set": Types.set(),
     "sorted": Types.list(),
     "str": Types.string(),
@@ -247,7 +262,13 @@ class TypeVisitor(BaseVisitor[Types]):
             return Types.string()
         return Types.empty()
 
-    def visit_name(self, node: nodes.Name):
+    def visit_assignname(self, node: nodes.AssignName):
+        return self.visit_name(node)
+
+    def visit_assignattr(self, _node: nodes.AssignAttr):
+        return Types.empty()
+
+    def visit_name(self, node: Union[nodes.Name, nodes.AssignName]):
         result = Types.empty()
         assigned_whole = list(
             get_assigned_expressions(node, include_nodes=[], include_destructuring=False)
@@ -262,7 +283,8 @@ class TypeVisitor(BaseVisitor[Types]):
                 if get_range_params(assigned) is not None:
                     result |= Types.int()
             elif assigned in assigned_whole:
-                result |= self.visit(assigned)
+                is_augmented = isinstance(assigned.parent, nodes.AugAssign)
+                result |= self.visit(assigned.parent if is_augmented else assigned)
         return result
 
     def visit_import(self, _node: nodes.Import):
@@ -314,46 +336,56 @@ class TypeVisitor(BaseVisitor[Types]):
         return self.visit(node.body) | self.visit(node.orelse)
 
     def visit_binop(self, node: nodes.BinOp):
-        if node.op == "+":
-            return self.visit(node.left) | self.visit(node.right)
+        return self._operation_type(node.op, node.left, node.right)
 
-        if node.op == "-":
-            lt = self.visit(node.left)
-            rt = self.visit(node.right)
-            if (lt | rt).has(Type.SET):
-                return Types.set()
-            if (lt | rt).has(Type.FLOAT):
-                return Types.float()
-            if (lt | rt).has(Type.INT):
-                return Types.int()
-            return Types.empty()
+    def visit_augassign(self, node: nodes.AugAssign):
+        return self._operation_type(node.op[:-1], node.target, node.value)
 
-        if node.op == "*":
-            return self.visit(node.left)
+    def _operation_type(self, op: str, left: nodes.NodeNG, right: nodes.NodeNG) -> Types:
+        if op in ("<<", ">>"):
+            return Types.int()
 
-        if node.op == "/":
+        if op == "/":
             return Types.float()
 
-        if node.op == "//":
-            return Types.int()
+        lt = self.visit(left)
+        rt = self.visit(right)
 
-        if node.op == "%":
-            if (self.visit(node.left) | self.visit(node.right)).has(Type.STRING):
-                return Types.string()
-            if (self.visit(node.left) | self.visit(node.right)).has(Type.INT):
-                return Types.int()
-            return Types.empty()
-
-        if node.op == "**":
-            if (self.visit(node.left) | self.visit(node.right)).has(Type.FLOAT):
-                return Types.float()
-            if (self.visit(node.left) | self.visit(node.right)).has(Type.INT):
-                return Types.int()
-            return Types.empty()
+        if op == "+":
+            return Types.only(lt | rt, SEQUENCE_TYPES) | Types.arithmetic(lt, rt)
 
-        if node.op in ("&", "|", "^"):
-            lt = self.visit(node.left)
-            rt = self.visit(node.right)
+        if op == "-":
+            if (lt | rt).has(Type.SET):
+                return Types.set()
+            return Types.arithmetic(lt, rt)
+
+        if op == "*":
+            repeated = Types.only(lt | rt, SEQUENCE_TYPES)
+            if lt.has_only(SEQUENCE_TYPES) and rt.has_only(SEQUENCE_TYPES):
+                return repeated
+            if any(len(t) > 0 and t.has_only(SEQUENCE_TYPES) for t in (lt, rt)):
+                return repeated
+            return repeated | Types.arithmetic(lt, rt)
+
+        if op == "//":
+            result = Types.arithmetic(lt, rt)
+            return result if len(result) > 0 else Types.int()
+
+        if op == "%":
+            if (lt | rt).has(Type.STRING):
+                return Types.string()
+            return Types.arithmetic(lt, rt)
+
+        if op == "**":
+            result = Types.arithmetic(lt, rt)
+            if result.has(Type.INT) and not (
+                isinstance(right, nodes.Const) and isinstance(right.value, int)
+            ):
+                # negative exponent
+                return result | Types.float()
+            return result
+
+        if op in ("&", "|", "^"):
             if (lt | rt).has(Type.SET):
                 return Types.set()
             if (lt & rt).has(Type.BOOL):
@@ -362,17 +394,14 @@ class TypeVisitor(BaseVisitor[Types]):
                 return Types.int()
             return Types.empty()
 
-        if node.op in ("<<", ">>"):
-            return Types.int()
-
-        if node.op == "@":
+        if op == "@":
             return Types.empty()
 
-        assert False, f"unreachable, but {node.op}"
+        assert False, f"unreachable, but {op}"
 
     def visit_unaryop(self, node: nodes.UnaryOp):
         if node.op in ("+", "-"):
-            return self.visit(node.operand)
+            return Types.arithmetic(self.visit(node.operand), Types.empty())
 
         if node.op == "not":
             return Types.bool()
@@ -386,6 +415,12 @@ class TypeVisitor(BaseVisitor[Types]):
         func = node.func
         if isinstance(func, nodes.Name):
             if is_builtin(func):
+                if func.name == "abs" and len(node.args) == 1:
+                    result = Types.arithmetic(self.visit(node.args[0]), Types.empty())
+                    return result if len(result) > 0 else Types.int() | Types.float()
+                if func.name == "round":
+                    is_whole = len(node.args) == 1 and len(node.keywords) == 0
+                    return Types.int() if is_whole else Types.int() | Types.float()
                 return BUILTIN_TYPES.get(func.name, Types.empty())
             assigned = list(
                 get_assigned_expressions(
-- 
2.43.0


From e939cb4bc9f0cae4bcc551949c362b3a7e1efba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 53/85] fix: do not mistake parity conditions and chained
 comparisons for negations of one another

---
 edulint/linting/analyses/utils.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/edulint/linting/analyses/utils.py b/edulint/linting/analyses/utils.py
index 3a6209e..bf23fbe 100644
--- a/edulint/linting/analyses/utils.py
+++ b/edulint/linting/analyses/utils.py
@@ -648,20 +648,24 @@ def is_negation(lt: nodes.NodeNG, rt: nodes.NodeNG, negated_rt: bool) -> bool:
         if op not in ("==", "!=") or is_mod_two(left) == is_mod_two(right):
             return False
 
-        # MAYBE check if value equal to mod is 0 or 1?
-        return True
+        value = get_const_value(right if is_mod_two(left) else left)
+        return type(value) is int and value in (0, 1)
 
     def mod_two_negation(lt: nodes.NodeNG, rt: nodes.NodeNG):
         if not is_eq_mod_two(lt) or not is_eq_mod_two(rt):
             return False
 
-        lt_lt, (_, lt_rt) = lt.left, lt.ops[0]
-        rt_lt, (_, rt_rt) = rt.left, rt.ops[0]
+        lt_lt, (lt_op, lt_rt) = lt.left, lt.ops[0]
+        rt_lt, (rt_op, rt_rt) = rt.left, rt.ops[0]
 
         lt_mod, lt_val = (lt_lt, lt_rt) if is_mod_two(lt_lt) else (lt_rt, lt_lt)
         rt_mod, rt_val = (rt_lt, rt_rt) if is_mod_two(rt_lt) else (rt_rt, rt_lt)
 
-        return have_same_value(lt_mod.left, rt_mod.left) and not have_same_value(lt_val, rt_val)
+        return (
+            lt_op == rt_op
+            and have_same_value(lt_mod.left, rt_mod.left)
+            and get_const_value(lt_val) != get_const_value(rt_val)
+        )
 
     lt, negated_rt = strip_nots(lt, negated_rt)
     rt, negated_rt = strip_nots(rt, negated_rt)
@@ -683,7 +687,11 @@ def is_negation(lt: nodes.NodeNG, rt: nodes.NodeNG, negated_rt: bool) -> bool:
         if negated_rt and ops_match(lt, rt, lambda op: op):
             return all_are_negations(to_values(lt), to_values(rt), negated_rt)
 
-        if not negated_rt and ops_match(lt, rt, lambda op: NEGATED_OP[op]):
+        if (
+            not negated_rt
+            and len(lt.ops) == 1
+            and ops_match(lt, rt, lambda op: NEGATED_OP[op])
+        ):
             return all_are_negations(to_values(lt), to_values(rt), not negated_rt)
 
         if not negated_rt and mod_two_negation(lt, rt):
-- 
2.43.0


From b0d70bccfd4b0b748e7d5cf16f00325b9c93f7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:27 +0000
Subject: [PATCH 54/85] fix: do not consider a variable an integer because of a
 condition that cannot be analysed

---
 edulint/linting/analyses/z3_analysis.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/analyses/z3_analysis.py b/edulint/linting/analyses/z3_analysis.py
index 0dccbb5..8f9b2e7 100644
--- a/edulint/linting/analyses/z3_analysis.py
+++ b/edulint/linting/analyses/z3_analysis.py
@@ -150,6 +150,10 @@ def initialize_variables(
         if guessed_type is None:
             return False
 
+        # check before changing the variable to an integer, it may be used also elsewhere
+        if is_descendant_of_integer_operation and not guessed_type.has_only(Type.INT):
+            return False
+
         if variable is None:
             initialized_variables[variable_key] = (
                 z3.Int(str(len(initialized_variables)))
@@ -159,9 +163,6 @@ def initialize_variables(
         elif is_descendant_of_integer_operation and variable.is_real():
             initialized_variables[variable_key] = z3.Int(variable.decl().name())
 
-        if is_descendant_of_integer_operation:
-            return guessed_type.has_only(Type.INT)
-
         return guessed_type.has_only([Type.BOOL, Type.FLOAT, Type.INT])
 
     if isinstance(node, nodes.BinOp) and (node.op == "%" or node.op == "//"):
-- 
2.43.0


From 61489e09edfcfb987979424e02d058b3c0d109ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:33 +0000
Subject: [PATCH 55/85] fix: do not suggest append for an extension by a list
 with a starred element

---
 edulint/linting/checkers/local_defects.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 04f6e6a..7654c43 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -133,6 +133,7 @@ class Local(BaseChecker):
             and len(node.args) == 1
             and isinstance(node.args[0], nodes.List)
             and len(node.args[0].elts) == 1
+            and not isinstance(node.args[0].elts[0], nodes.Starred)
         ):
             self.add_message(
                 "use-append",
@@ -145,7 +146,12 @@ class Local(BaseChecker):
             )
 
     def _check_augassign_extend(self, node: nodes.AugAssign) -> None:
-        if node.op == "+=" and isinstance(node.value, nodes.List) and len(node.value.elts) == 1:
+        if (
+            node.op == "+="
+            and isinstance(node.value, nodes.List)
+            and len(node.value.elts) == 1
+            and not isinstance(node.value.elts[0], nodes.Starred)
+        ):
             self.add_message(
                 "use-append",
                 node=node,
-- 
2.43.0


From 40fc08e02fa254818117ff103fa8f438355095ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:33 +0000
Subject: [PATCH 56/85] fix: do not report different operands as a repeated
 operation

---
 edulint/linting/checkers/local_defects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 7654c43..e7f7349 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -222,7 +222,7 @@ class Local(BaseChecker):
                 return None
 
             count_rt, _ = rt
-            return count_lt + count_rt, name
+            return count_lt + count_rt, name_lt
 
         if (
             name is None and type(node) in (nodes.Name, nodes.Attribute, nodes.Subscript)
-- 
2.43.0


From aca4a4ab35649b14a02b820de4d83ccc51b2f5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:33 +0000
Subject: [PATCH 57/85] fix: do not report operations with equal impure
 operands as redundant

---
 edulint/linting/checkers/local_defects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index e7f7349..fac1b90 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -269,6 +269,7 @@ class Local(BaseChecker):
                 and (
                     isinstance(node, nodes.BinOp)
                     and node.left.as_string() == node.right.as_string()
+                    and is_pure_expression(node.left)
                     or isinstance(node, nodes.AugAssign)
                     and node.target.as_string() == node.value.as_string()
                 )
-- 
2.43.0


From 1705109cd815e90d7c93e23f88be2089ab3d86a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:33 +0000
Subject: [PATCH 58/85] fix: do not suggest augmented assignment for chained
 assignments

---
 edulint/linting/checkers/local_defects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index fac1b90..dc88a3d 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -13,6 +13,7 @@ from edulint.linting.analyses.utils import (
     get_const_value,
     is_parents_elif,
     get_statements_count,
+    is_chained_assignment,
     is_negation,
     is_pure_expression,
     requires_data_dependency_analysis,
@@ -292,6 +293,8 @@ class Local(BaseChecker):
         bin_op = node.value
 
         if isinstance(node, nodes.Assign):
+            if is_chained_assignment(node):
+                return
             target = node.targets[0].as_string()
         elif isinstance(node, nodes.AnnAssign):
             target = node.target.as_string()
-- 
2.43.0


From bca494ca1e9b77acdf118b3b2082b58f50f53544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 59/85] fix: do not crash on multiplication of two lists

---
 edulint/linting/checkers/local_defects.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index dc88a3d..a28e4c9 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -322,12 +322,11 @@ class Local(BaseChecker):
                 and elem.func.name in ("list", "set", "dict")
             )
 
-        if node.op != "*" or (
-            not isinstance(node.left, nodes.List) and not isinstance(node.right, nodes.List)
+        if node.op != "*" or isinstance(node.left, nodes.List) == isinstance(
+            node.right, nodes.List
         ):
             return
 
-        assert not isinstance(node.left, nodes.List) or not isinstance(node.right, nodes.List)
         lst = node.left if isinstance(node.left, nodes.List) else node.right
 
         if any(is_mutable(elem) for elem in lst.elts):
-- 
2.43.0


From d3353feb5db7198ec6a276d2f99b4acb404cec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 60/85] fix: parenthesise operands in no-is-bool suggestions

---
 edulint/linting/checkers/local_defects.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index a28e4c9..43421f3 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -351,6 +351,20 @@ class Local(BaseChecker):
             ):
                 self.add_message("unreachable-else", node=node.orelse[0].orelse[0])
 
+    @staticmethod
+    def _as_operand(node: nodes.NodeNG) -> str:
+        """Returns the code of the node as it has to be written in a comparison."""
+        loose = (
+            nodes.BoolOp,
+            nodes.Compare,
+            nodes.IfExp,
+            nodes.Lambda,
+            nodes.NamedExpr,
+        )
+        if isinstance(node, loose) or (isinstance(node, nodes.UnaryOp) and node.op == "not"):
+            return f"({node.as_string()})"
+        return node.as_string()
+
     def _check_no_is(self, node: nodes.Compare) -> None:
         for i, (op, val) in enumerate(node.ops):
             if (
@@ -358,14 +372,14 @@ class Local(BaseChecker):
                 and isinstance(val, nodes.Const)
                 and isinstance(val.value, bool)
             ):
-                prev_val = node.ops[i - 1][1] if i > 0 else node.left
+                prev_val = self._as_operand(node.ops[i - 1][1] if i > 0 else node.left)
                 negate = (op == "is") != val.value
                 self.add_message(
                     "no-is-bool",
                     node=node,
                     args=(
-                        f"{'not ' if negate else ''}{prev_val.as_string()}",
-                        f"{prev_val.as_string()} {op} {val.as_string()}",
+                        f"{'not ' if negate else ''}{prev_val}",
+                        f"{prev_val} {op} {val.as_string()}",
                     ),
                 )
 
-- 
2.43.0


From 599dc37c597a3bab17d80292eb4cd9d25555727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 61/85] fix: make letters suggested instead of their codes
 correct expressions

---
 edulint/linting/checkers/local_defects.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 43421f3..e0cdcab 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -421,11 +421,11 @@ class Local(BaseChecker):
             elif self._is_preffered(value - 1):
                 suggestion = f"ord('{chr(value - 1)}') + 1"
             elif not isinstance(ord_param, nodes.BinOp) or self._is_preffered(value):
-                suggestion = f"ord('{chr(value)}')"
+                suggestion = f"ord({chr(value)!r})"
             else:
                 continue
 
-            if (node.op == "-" and const_param == node.right and suggestion.endswith("+ 1")) or (
+            if (node.op == "-" and const_param == node.right and suggestion.endswith(" 1")) or (
                 node.op == "+" and const_param == node.left and suggestion.endswith("- 1")
             ):
                 add_message(const_param, value, f"({suggestion})")
@@ -469,7 +469,7 @@ class Local(BaseChecker):
                     or not isinstance(other, nodes.BinOp)
                     or self._is_preffered(value)
                 ):
-                    add_message(param, value, f"'{chr(value)}' {op}")
+                    add_message(param, value, f"{chr(value)!r} {op}")
             else:
                 if self._is_preffered(value + 1) and op in (">", "<="):
                     add_message(param, value, f"{change(op)} '{chr(value + 1)}'")
@@ -480,7 +480,7 @@ class Local(BaseChecker):
                     or not isinstance(all_ops[-2][1], nodes.BinOp)
                     or self._is_preffered(value)
                 ):
-                    add_message(param, value, f"{op} '{chr(value)}'")
+                    add_message(param, value, f"{op} {chr(value)!r}")
 
     def _check_use_early_return(self, node: nodes.If):
         def ends_block(node: nodes.NodeNG) -> bool:
-- 
2.43.0


From 08b5942eddd25cd98ba5a413ac51f7560a7d4d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 62/85] fix: keep parentheses and evaluation count when
 replacing range membership by comparison

---
 edulint/linting/checkers/local_defects.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index e0cdcab..8de9760 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -543,7 +543,7 @@ class Local(BaseChecker):
             if isinstance(node, (nodes.BinOp, nodes.UnaryOp)):
                 return f"({node.as_string()})"
 
-            return node.as_string()
+            return self._as_operand(node)
 
         def get_value_plus_constant(node: nodes.NodeNG) -> Optional[Tuple[str, int]]:
             if is_var(node):
@@ -613,6 +613,7 @@ class Local(BaseChecker):
             len(node.ops) != 1
             or (node.ops[0][0] != "in" and node.ops[0][0] != "not in")
             or not is_var(node.left)
+            or not is_pure_expression(node.left)
             or not takes_only_int_values(node.left)
         ):
             return
@@ -659,8 +660,8 @@ class Local(BaseChecker):
 
         left_compare = "<="
         right_compare = "<"
-        left = start.as_string()
-        right = stop.as_string()
+        left = self._as_operand(start)
+        right = self._as_operand(stop)
 
         if step_val < 0:
             left_compare, right_compare, left, right = right_compare, left_compare, right, left
-- 
2.43.0


From 6cbdd2fc87d80a466315164af78eb9eb940ce4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 63/85] fix: recognise elif when the branches are indented
 differently

---
 edulint/linting/checkers/local_defects.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 8de9760..f3db614 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -182,9 +182,8 @@ class Local(BaseChecker):
 
     def _check_else_if(self, node: nodes.If) -> None:
         if node.has_elif_block():
-            first_body = node.body[0]
-            first_orelse = node.orelse[0]
-            if first_body.col_offset == first_orelse.col_offset:
+            # elif is aligned with its if
+            if node.orelse[0].col_offset != node.col_offset:
                 self.add_message("use-elif", node=node.orelse[0])
 
     def _check_iteration_count(self, node: nodes.For) -> None:
-- 
2.43.0


From a81ce3178e8fe5fdfd75eccebea91c13a4560683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 64/85] fix: check nested and starred targets for shadowing in
 comprehensions

---
 edulint/linting/checkers/python_ta_checkers.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/edulint/linting/checkers/python_ta_checkers.py b/edulint/linting/checkers/python_ta_checkers.py
index a9448d8..4d6d0c3 100644
--- a/edulint/linting/checkers/python_ta_checkers.py
+++ b/edulint/linting/checkers/python_ta_checkers.py
@@ -120,19 +120,10 @@ class ShadowingInComprehensionChecker(BaseChecker):
 
     @only_required_for_messages("shadowing-in-comprehension")
     def visit_comprehension(self, node: nodes.Comprehension) -> None:
-        if isinstance(node.target, nodes.Tuple):
-            for target in node.target.elts:
-                if (
-                    isinstance(target, nodes.Name)
-                    and target.name in node.parent.frame().locals
-                    and target.name != "_"
-                ):
-                    args = target.name
-                    self.add_message("shadowing-in-comprehension", node=target, args=args)
-        elif isinstance(node.target, nodes.AssignName):
-            if node.target.name in node.parent.frame().locals and node.target.name != "_":
-                args = node.target.name
-                self.add_message("shadowing-in-comprehension", node=node.target, args=args)
+        for target in node.target.nodes_of_class(nodes.AssignName):
+            if target.name in node.parent.frame().locals and target.name != "_":
+                args = target.name
+                self.add_message("shadowing-in-comprehension", node=target, args=args)
 
 
 class TopLevelCodeChecker(BaseChecker):
-- 
2.43.0


From 1dfca505065379bb653e5137c518a6e05109eeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 65/85] fix: treat annotated assignments in the top-level code
 as assignments

---
 edulint/linting/checkers/python_ta_checkers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/python_ta_checkers.py b/edulint/linting/checkers/python_ta_checkers.py
index 4d6d0c3..067d5e7 100644
--- a/edulint/linting/checkers/python_ta_checkers.py
+++ b/edulint/linting/checkers/python_ta_checkers.py
@@ -182,7 +182,7 @@ def _is_constant_assignment(statement: nodes.NodeNG) -> bool:
 
 
 def _is_assignment(statement: nodes.NodeNG) -> bool:
-    return isinstance(statement, nodes.Assign)
+    return isinstance(statement, (nodes.Assign, nodes.AnnAssign))
 
 
 def register(linter: "PyLinter") -> None:
-- 
2.43.0


From f22d78a123072991c5c347c54e6a764d7357a5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 66/85] fix: count the statements in match cases

---
 edulint/linting/analyses/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edulint/linting/analyses/utils.py b/edulint/linting/analyses/utils.py
index bf23fbe..6537e32 100644
--- a/edulint/linting/analyses/utils.py
+++ b/edulint/linting/analyses/utils.py
@@ -565,6 +565,9 @@ def get_statements_count(
     if isinstance(node, nodes.With):
         return 1 + count(node.body)
 
+    if isinstance(node, nodes.Match):
+        return 1 + sum(1 + count(case.body) for case in node.cases)
+
     return 1
 
 
-- 
2.43.0


From 453d628ec021071f5ee54e87aaf27ea14a302e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 67/85] fix: find modifications of global variables in methods
 of nested classes

---
 edulint/linting/analyses/cfg/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edulint/linting/analyses/cfg/utils.py b/edulint/linting/analyses/cfg/utils.py
index 85ddef2..076b8e2 100644
--- a/edulint/linting/analyses/cfg/utils.py
+++ b/edulint/linting/analyses/cfg/utils.py
@@ -252,6 +252,7 @@ def essor_locs_from_locs(
         assert direction == Direction.SUCCESSORS
         for child in node.body:
             yield from try_explore_function(child.cfg_loc)
+            yield from try_explore_class(child.cfg_loc)
 
     def try_explore_class(loc: CFGLoc):
         if explore_classes and isinstance(loc.node, nodes.ClassDef):
-- 
2.43.0


From 5322a480ae214df097fc70a154b66aceaada7295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 68/85] fix: do not report variables of top-level
 comprehensions as modified in a function

---
 edulint/linting/checkers/basic_checker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/basic_checker.py b/edulint/linting/checkers/basic_checker.py
index ab7174b..52adcb4 100644
--- a/edulint/linting/checkers/basic_checker.py
+++ b/edulint/linting/checkers/basic_checker.py
@@ -46,7 +46,7 @@ class NoGlobalVars(BaseChecker):
                 if var not in toplevel_vars:
                     continue
                 for event in events:
-                    if event.type != VarEventType.READ and event.node.parent.scope() != node:
+                    if event.type != VarEventType.READ and event.node.parent.frame() != node:
                         self.add_message(
                             "no-global-vars",
                             node=toplevel_vars[var].node,
-- 
2.43.0


From 28840a45fc62704c959e5c2fe14b48b771932481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:05 +0000
Subject: [PATCH 69/85] fix: suggest no loop condition if the code before the
 break may continue the loop

---
 edulint/linting/checkers/unsuited_loop.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 495c925..b79d1aa 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -1,6 +1,6 @@
 from astroid import nodes, Context  # type: ignore
 from functools import reduce
-from typing import TYPE_CHECKING, List, Iterator, Tuple, Optional
+from typing import TYPE_CHECKING, List, Iterator, Tuple, Optional, Union
 
 from pylint.checkers import BaseChecker  # type: ignore
 from pylint.checkers.utils import only_required_for_messages
@@ -104,9 +104,25 @@ class UnsuitedLoop(BaseChecker):
             return
 
         first = node.body[0]
-        if isinstance(first, nodes.If) and isinstance(first.body[-1], nodes.Break):
+        if (
+            isinstance(first, nodes.If)
+            and isinstance(first.body[-1], nodes.Break)
+            and not any(
+                self._get_loop(c) is node
+                for stmt in first.body
+                for c in stmt.nodes_of_class(nodes.Continue)
+            )
+        ):
             self.add_message("no-while-true", node=node, args=(first.test.as_string(),))
 
+    @staticmethod
+    def _get_loop(node: Union[nodes.Break, nodes.Continue]) -> nodes.NodeNG:
+        """Returns the loop the node jumps in."""
+        child, parent = node, node.parent
+        while not isinstance(parent, (nodes.For, nodes.While)) or child in parent.orelse:
+            child, parent = parent, parent.parent
+        return parent
+
     @requires_data_dependency_analysis()
     def _check_use_for_loop(self, node: nodes.While) -> None:
         # TODO allow different increments?
-- 
2.43.0


From 833577ba31d0eb4b6cb62d61c2ad79f53d3c36a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:05 +0000
Subject: [PATCH 70/85] fix: do not take subtraction of a variable from a
 constant for an increment

---
 edulint/linting/checkers/unsuited_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index b79d1aa..7387c9d 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -142,7 +142,7 @@ class UnsuitedLoop(BaseChecker):
                     op = binop.op
                     if binop.left.as_string() == node.as_string():
                         const = get_const_value(binop.right)
-                    if binop.right.as_string() == node.as_string():
+                    elif op == "+" and binop.right.as_string() == node.as_string():
                         const = get_const_value(binop.left)
             if const is None:
                 return None
-- 
2.43.0


From 4705cf3816be14248635425a9f286b90608796d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:05 +0000
Subject: [PATCH 71/85] fix: suggest no tighter boundaries if the loop changes
 variables of the range

---
 edulint/linting/checkers/unsuited_loop.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 7387c9d..2b023f3 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -25,6 +25,7 @@ from edulint.linting.analyses.data_dependency import (
     get_events_for,
     get_events_by_var,
     filter_events_for,
+    modified_in,
 )
 from edulint.linting.analyses.mutability import vars_from_node_may_be_modified_in
 from edulint.linting.analyses.z3_block_analysis import (
@@ -276,6 +277,7 @@ class UnsuitedLoop(BaseChecker):
         ):
             self._check_infinite_loop(node)
 
+    @requires_data_dependency_analysis()
     def _check_use_tighter_bounds(self, node: nodes.For) -> None:
         def compares_equality(node: nodes.NodeNG) -> bool:
             return isinstance(node, nodes.Compare) and len(node.ops) == 1 and node.ops[0][0] == "=="
@@ -327,6 +329,9 @@ class UnsuitedLoop(BaseChecker):
             return
 
         start, stop, step = range_params
+        range_vars = [var for param in node.iter.args for var in vars_in(param)]
+        if modified_in(range_vars, node.body):
+            return
 
         var = node.target.as_string()
         if isinstance(node.body[0], nodes.If):
-- 
2.43.0


From c3d8bfaf3f440e6f1a9fa5abb96a60a45ab433ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:05 +0000
Subject: [PATCH 72/85] fix: find the last iteration only of ranges with the
 step of one

---
 edulint/linting/checkers/unsuited_loop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 2b023f3..91002f4 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -293,6 +293,8 @@ class UnsuitedLoop(BaseChecker):
             const_node = get_const_value(node)
             const_stop = get_const_value(stop)
             const_step = get_const_value(step)
+            if const_step not in (1, -1):  # the last value depends on start
+                return False
             return (
                 isinstance(node, nodes.BinOp)
                 and node.op == "-"
-- 
2.43.0


From 21d8e1d7f34ab10422e58cb338166d8e821d00e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:06 +0000
Subject: [PATCH 73/85] fix: do not suggest direct iteration over elements
 removed before they are read

---
 edulint/linting/checkers/unsuited_loop.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 91002f4..c0b5815 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -460,13 +460,22 @@ class UnsuitedLoop(BaseChecker):
                 for e in structure_events
             )
 
-        def is_structure_directly_modified(structure_events: List[VarEvent]) -> bool:
+        def ends_indexing(event: VarEvent, indexing_events: List[VarEvent]) -> bool:
+            line = self._get_block_line(event.node)
+            last = self._get_last_block_line(event.node)
+            return isinstance(last, (nodes.Break, nodes.Return)) and not any(
+                line.tolineno < e.node.lineno <= last.tolineno for e in indexing_events
+            )
+
+        def is_structure_directly_modified(
+            structure_events: List[VarEvent], indexing_events: List[VarEvent]
+        ) -> bool:
             return any(
                 (
                     (e.type == VarEventType.MODIFY and e.is_direct_modify())
                     or (e.type not in (VarEventType.READ, VarEventType.MODIFY))
                 )
-                and not isinstance(self._get_last_block_line(e.node), (nodes.Break, nodes.Return))
+                and not ends_indexing(e, indexing_events)
                 for e in structure_events
             )
 
@@ -525,7 +534,7 @@ class UnsuitedLoop(BaseChecker):
             or not is_structure_indexed_just_by(index_var, indexing_events)
             or not is_index_used_just_for(structure, events_by_var[index_var])
             or is_index_modified(events_by_var[index_var])
-            or is_structure_directly_modified(events_by_var[structure_var])
+            or is_structure_directly_modified(events_by_var[structure_var], indexing_events)
             or is_structure_assigned_into(events_by_var[structure_var])
         ):
             return
-- 
2.43.0


From 26461559d8c58ec57ed01cf202d117421a45b64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:06 +0000
Subject: [PATCH 74/85] fix: name the whole iterated structure and suggest
 enumerate if the index is used after the loop

---
 edulint/linting/checkers/unsuited_loop.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index c0b5815..274a9e3 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -508,6 +508,13 @@ class UnsuitedLoop(BaseChecker):
                     return True
             return False
 
+        def is_index_used_outside_loop(index_var: Variable) -> bool:
+            return any(
+                node not in use.node.node_ancestors()
+                for event in get_events_for([index_var], [node.target])
+                for use in event.uses
+            )
+
         is_, stop = is_for_range_len(node)
         if not is_:
             return
@@ -539,10 +546,14 @@ class UnsuitedLoop(BaseChecker):
         ):
             return
 
-        if is_index_used_outside_subscript(events_by_var[index_var], structure):
-            self.add_message("use-enumerate", args=(index_var.name, structure_var.name), node=node)
+        if is_index_used_outside_subscript(
+            events_by_var[index_var], structure
+        ) or is_index_used_outside_loop(index_var):
+            self.add_message(
+                "use-enumerate", args=(index_var.name, structure.as_string()), node=node
+            )
         else:
-            self.add_message("use-foreach", args=structure_var.name, node=node)
+            self.add_message("use-foreach", args=structure.as_string(), node=node)
 
     @only_required_for_messages(
         "use-tighter-boundaries",
-- 
2.43.0


From 04289af2fbf9ec00351b649abf3dd47729f7dda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:10 +0000
Subject: [PATCH 75/85] fix: report loops with one iteration at the very
 beginning of a module

---
 edulint/linting/checkers/python_ta_checkers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/python_ta_checkers.py b/edulint/linting/checkers/python_ta_checkers.py
index 067d5e7..6f03106 100644
--- a/edulint/linting/checkers/python_ta_checkers.py
+++ b/edulint/linting/checkers/python_ta_checkers.py
@@ -93,7 +93,7 @@ class OneIterationChecker(BaseChecker):
 
         preds = start.cfg_loc.block.predecessors
 
-        if preds == []:
+        if preds == [] and not start.cfg_loc.block.reachable:
             return False
 
         for pred in preds:
-- 
2.43.0


From 0d84e27392738774be868c8829999623bf786758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:20 +0000
Subject: [PATCH 76/85] fix: do not take operands with equal truth values for
 equal in negations of comparisons

---
 edulint/linting/analyses/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/utils.py b/edulint/linting/analyses/utils.py
index 6537e32..b8af71e 100644
--- a/edulint/linting/analyses/utils.py
+++ b/edulint/linting/analyses/utils.py
@@ -633,6 +633,11 @@ def is_negation(lt: nodes.NodeNG, rt: nodes.NodeNG, negated_rt: bool) -> bool:
     ) -> bool:
         return all(is_negation(ll, rr, new_rt_negated) for ll, rr in zip(lt_values, rt_values))
 
+    def all_have_same_value(
+        lt_values: List[nodes.NodeNG], rt_values: List[nodes.NodeNG]
+    ) -> bool:
+        return all(have_same_value(ll, rr) for ll, rr in zip(lt_values, rt_values))
+
     def strip_nots(node: nodes.NodeNG, negated_rt: bool) -> Tuple[nodes.NodeNG, bool]:
         while isinstance(node, nodes.UnaryOp) and node.op == "not":
             negated_rt = not negated_rt
@@ -688,14 +693,14 @@ def is_negation(lt: nodes.NodeNG, rt: nodes.NodeNG, negated_rt: bool) -> bool:
             return False
 
         if negated_rt and ops_match(lt, rt, lambda op: op):
-            return all_are_negations(to_values(lt), to_values(rt), negated_rt)
+            return all_have_same_value(to_values(lt), to_values(rt))
 
         if (
             not negated_rt
             and len(lt.ops) == 1
             and ops_match(lt, rt, lambda op: NEGATED_OP[op])
         ):
-            return all_are_negations(to_values(lt), to_values(rt), not negated_rt)
+            return all_have_same_value(to_values(lt), to_values(rt))
 
         if not negated_rt and mod_two_negation(lt, rt):
             return True
-- 
2.43.0


From f922c2f816e3d243ca338c99e78d7d9e5782c907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:03 +0000
Subject: [PATCH 77/85] fix: consider functions passed on, and all definitions
 of a function, when looking for modifications

---
 edulint/linting/analyses/mutability.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/edulint/linting/analyses/mutability.py b/edulint/linting/analyses/mutability.py
index 52c6744..24265fb 100644
--- a/edulint/linting/analyses/mutability.py
+++ b/edulint/linting/analyses/mutability.py
@@ -64,25 +64,29 @@ def _get_body_of_called_function(definition: VarEvent) -> Optional[List[nodes.No
 
 
 def _may_contain_global_variable_modified_in_function(
-    node: nodes.NodeNG, nodes_: List[nodes.NodeNG], checked_function_names: Set[str]
+    node: nodes.NodeNG, nodes_: List[nodes.NodeNG], checked_definitions: Set[VarEvent]
 ) -> bool:
     for event in get_events_in(nodes_, [VarEventType.READ]):
-        if not isinstance(event.node.parent, nodes.Call) or event.node != event.node.parent.func:
-            continue
+        is_called = isinstance(event.node.parent, nodes.Call) and (
+            event.node == event.node.parent.func
+        )
 
         for definition in event.definitions:
-            func_name = event.node.name
-            if func_name in checked_function_names:
+            if definition in checked_definitions:
                 continue
 
-            checked_function_names.add(func_name)
             body = _get_body_of_called_function(definition)
+            if body is None and not is_called:
+                continue
+
+            checked_definitions.add(definition)
 
+            # a function that is only passed on may be called as well
             if (
                 body is None
                 or _vars_from_node_may_be_directly_modified_in(node, body)
                 or _may_contain_global_variable_modified_in_function(
-                    node, body, checked_function_names
+                    node, body, checked_definitions
                 )
             ):
                 return True
-- 
2.43.0


From bcfd26312026910e14f3be217a30f4cb4a61ec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:03 +0000
Subject: [PATCH 78/85] fix: partition and rpartition of a text give tuples

---
 edulint/linting/analyses/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/types.py b/edulint/linting/analyses/types.py
index 47eba9b..d5c95bd 100644
--- a/edulint/linting/analyses/types.py
+++ b/edulint/linting/analyses/types.py
@@ -170,12 +170,12 @@ TYPE_METHOD_TYPES = {
         "ljust": Types.string(),
         "lower": Types.string(),
         "lstrip": Types.string(),
-        "partition": Types.list(),
+        "partition": Types.tuple(),
         "replace": Types.string(),
         "rfind": Types.int(),
         "rindex": Types.int(),
         "rjust": Types.string(),
-        "rpartition": Types.list(),
+        "rpartition": Types.tuple(),
         "rsplit": Types.list(),
         "rstrip": Types.string(),
         "split": Types.list(),
-- 
2.43.0


From 983d8253c225431fc08cb5f6bfe16ca63c20af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:03 +0000
Subject: [PATCH 79/85] fix: the type of 'and' and 'or' is that of their
 operands

---
 edulint/linting/analyses/types.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/types.py b/edulint/linting/analyses/types.py
index d5c95bd..40b8720 100644
--- a/edulint/linting/analyses/types.py
+++ b/edulint/linting/analyses/types.py
@@ -329,8 +329,12 @@ class TypeVisitor(BaseVisitor[Types]):
     def visit_compare(self, _node: nodes.Compare):
         return Types.bool()
 
-    def visit_boolop(self, _node: nodes.BoolOp):
-        return Types.bool()
+    def visit_boolop(self, node: nodes.BoolOp):
+        result = Types.empty()
+        for value in node.values:
+            value_types = self.visit(value)
+            result |= value_types if len(value_types) > 0 else Types.bool()
+        return result
 
     def visit_ifexp(self, node: nodes.IfExp):
         return self.visit(node.body) | self.visit(node.orelse)
-- 
2.43.0


From 71ca2732c18d6f6e339142723e198b258c6c628b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:03 +0000
Subject: [PATCH 80/85] fix: consider all possible types of operands of -, %,
 &, | and ^

---
 edulint/linting/analyses/types.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/edulint/linting/analyses/types.py b/edulint/linting/analyses/types.py
index 40b8720..31344d4 100644
--- a/edulint/linting/analyses/types.py
+++ b/edulint/linting/analyses/types.py
@@ -359,9 +359,7 @@ class TypeVisitor(BaseVisitor[Types]):
             return Types.only(lt | rt, SEQUENCE_TYPES) | Types.arithmetic(lt, rt)
 
         if op == "-":
-            if (lt | rt).has(Type.SET):
-                return Types.set()
-            return Types.arithmetic(lt, rt)
+            return Types.only(lt | rt, [Type.SET]) | Types.arithmetic(lt, rt)
 
         if op == "*":
             repeated = Types.only(lt | rt, SEQUENCE_TYPES)
@@ -376,9 +374,9 @@ class TypeVisitor(BaseVisitor[Types]):
             return result if len(result) > 0 else Types.int()
 
         if op == "%":
-            if (lt | rt).has(Type.STRING):
+            if len(lt) == 0 and rt.has(Type.STRING):
                 return Types.string()
-            return Types.arithmetic(lt, rt)
+            return Types.only(lt, [Type.STRING]) | Types.arithmetic(lt, rt)
 
         if op == "**":
             result = Types.arithmetic(lt, rt)
@@ -390,13 +388,11 @@ class TypeVisitor(BaseVisitor[Types]):
             return result
 
         if op in ("&", "|", "^"):
-            if (lt | rt).has(Type.SET):
-                return Types.set()
+            kept = [Type.SET, Type.INT] + ([Type.DICT] if op == "|" else [])
+            result = Types.only(lt | rt, kept)
             if (lt & rt).has(Type.BOOL):
-                return Types.bool()
-            if (lt | rt).has(Type.INT):
-                return Types.int()
-            return Types.empty()
+                result |= Types.bool()
+            return result
 
         if op == "@":
             return Types.empty()
-- 
2.43.0


From 778f879f5807e550a65bd2cc8dfb8d328ea1eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:03 +0000
Subject: [PATCH 81/85] fix: consider all assigned values and f-strings when
 guessing types

---
 edulint/linting/analyses/types.py | 46 +++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/edulint/linting/analyses/types.py b/edulint/linting/analyses/types.py
index 31344d4..48e6e3c 100644
--- a/edulint/linting/analyses/types.py
+++ b/edulint/linting/analyses/types.py
@@ -1,13 +1,19 @@
 from enum import Enum, auto
 from functools import reduce
 import sys
-from typing import Optional, List, Union
+from typing import Dict, Optional, List, Union
 import operator
 
 from astroid import nodes
 
 from edulint.linting.analyses.data_dependency import get_assigned_expressions
-from edulint.linting.analyses.utils import is_builtin, BaseVisitor, get_range_params
+from edulint.linting.analyses.utils import (
+    is_builtin,
+    node_to_event,
+    BaseVisitor,
+    get_range_params,
+)
+from edulint.linting.analyses.var_events import VarEventType
 
 
 class Type(Enum):
@@ -248,7 +254,8 @@ class TypeVisitor(BaseVisitor[Types]):
         return reduce(operator.or_, results)
 
     def __init__(self, init_expr):
-        self.visited_exprs = {init_expr}
+        # empty while the expression is being visited
+        self.visited_exprs: Dict[nodes.NodeNG, Types] = {init_expr: Types.empty()}
 
     def visit_const(self, node: nodes.Const):
         val = node.value
@@ -276,17 +283,32 @@ class TypeVisitor(BaseVisitor[Types]):
         for assigned in get_assigned_expressions(
             node, include_nodes=[nodes.For, nodes.Comprehension], include_destructuring=True
         ):
-            if assigned in self.visited_exprs:
-                continue
-            self.visited_exprs.add(assigned)
-            if isinstance(assigned.parent, (nodes.For, nodes.Comprehension)):
-                if get_range_params(assigned) is not None:
-                    result |= Types.int()
-            elif assigned in assigned_whole:
-                is_augmented = isinstance(assigned.parent, nodes.AugAssign)
-                result |= self.visit(assigned.parent if is_augmented else assigned)
+            if assigned not in self.visited_exprs:
+                self.visited_exprs[assigned] = Types.empty()
+                if isinstance(assigned.parent, (nodes.For, nodes.Comprehension)):
+                    if get_range_params(assigned) is not None:
+                        self.visited_exprs[assigned] = Types.int()
+                elif assigned in assigned_whole:
+                    is_augmented = isinstance(assigned.parent, nodes.AugAssign)
+                    self.visited_exprs[assigned] = self.visit(
+                        assigned.parent if is_augmented else assigned
+                    )
+            result |= self.visited_exprs[assigned]
+
+        # modifying an object does not change its type
+        event = node_to_event(node)
+        for definition in event.definitions if event is not None else []:
+            modified = definition.node
+            if definition.type == VarEventType.MODIFY:
+                if modified not in self.visited_exprs:
+                    self.visited_exprs[modified] = Types.empty()
+                    self.visited_exprs[modified] = self.visit(modified)
+                result |= self.visited_exprs[modified]
         return result
 
+    def visit_joinedstr(self, _node: nodes.JoinedStr):
+        return Types.string()
+
     def visit_import(self, _node: nodes.Import):
         return Types.module()
 
-- 
2.43.0


From 8d06ed2be35e0ca21488068446b1dff6ae9d1ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:04 +0000
Subject: [PATCH 82/85] fix: count the repetitions of descending ranges in
 similar-block-to-loop-range

---
 edulint/linting/checkers/duplication/duplicate_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/duplication/duplicate_sequence.py b/edulint/linting/checkers/duplication/duplicate_sequence.py
index 8202ec3..85c2872 100644
--- a/edulint/linting/checkers/duplication/duplicate_sequence.py
+++ b/edulint/linting/checkers/duplication/duplicate_sequence.py
@@ -281,7 +281,7 @@ def consolidate_ranges(ranges):
             use = new_node(nodes.BinOp, op="+", left=use, right=new_node(nodes.Const, value=start))
         uses.append(use)
 
-    start, stop, step = 0, (stop - start - 1) // step + 1, 1
+    start, stop, step = 0, len(range(start, stop, step)), 1
     return [to_range_node((start, stop, step))], uses
 
 
-- 
2.43.0


From 78df28133e682e1447cfdb684001d7686655106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:04 +0000
Subject: [PATCH 83/85] fix: parenthesise the number of repetitions in
 similar-block-to-loop-merge

---
 edulint/linting/checkers/duplication/duplicate_sequence.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/duplication/duplicate_sequence.py b/edulint/linting/checkers/duplication/duplicate_sequence.py
index 85c2872..b379fcd 100644
--- a/edulint/linting/checkers/duplication/duplicate_sequence.py
+++ b/edulint/linting/checkers/duplication/duplicate_sequence.py
@@ -374,7 +374,12 @@ def get_fixed_by_merging_with_parent_loop(to_aunify, core, avars):
     new_iter = (
         f"{const_stop * len(to_aunify)}"
         if isinstance(stop, nodes.Const)
-        else f"{stop.as_string()} * {len(to_aunify)}"
+        else new_node(
+            nodes.BinOp,
+            op="*",
+            left=stop,
+            right=new_node(nodes.Const, value=len(to_aunify)),
+        ).as_string()
     )
     return Fixed(
         "similar-block-to-loop-merge",
-- 
2.43.0


From a98b10258c5a7ce4b43618f0bc8eb8348bcbccdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:08 +0000
Subject: [PATCH 84/85] fix: do not suggest merging loops whose bodies use the
 control variable

---
 edulint/linting/checkers/duplication/duplicate_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/duplication/duplicate_sequence.py b/edulint/linting/checkers/duplication/duplicate_sequence.py
index b379fcd..18b6964 100644
--- a/edulint/linting/checkers/duplication/duplicate_sequence.py
+++ b/edulint/linting/checkers/duplication/duplicate_sequence.py
@@ -366,7 +366,7 @@ def get_fixed_by_merging_with_parent_loop(to_aunify, core, avars):
     # TODO can be weakened -- use div to get i's original value
     if (
         not isinstance(target, nodes.AssignName)
-        or (target.name, parent.scope()) in used_vars.keys()
+        or target.name in {var.name for var in used_vars}
     ):
         return None
 
-- 
2.43.0


From a360491765e4914fea31cf1cdf767393e61bcaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:08 +0000
Subject: [PATCH 85/85] fix: tell equal literals of different types apart when
 comparing code

---
 edulint/linting/analyses/antiunify.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/antiunify.py b/edulint/linting/analyses/antiunify.py
index 5343dfe..dd84d9e 100644
--- a/edulint/linting/analyses/antiunify.py
+++ b/edulint/linting/analyses/antiunify.py
@@ -106,7 +106,8 @@ class Antiunify:
         return avar, [avar]
 
     def _aunify_consts(self, vals: List[Any], stop_on: Callable[[List[AunifyVar]], bool]):
-        if all(v == vals[0] for v in vals):
+        # True == 1 == 1.0, but the literals are different
+        if all(type(v) is type(vals[0]) and v == vals[0] for v in vals):
             return vals[0], []
 
         return self._new_aunifier(vals, stop_on)
@@ -381,7 +382,9 @@ def get_merge_candidates(
         if isinstance(subs[0], list):
             continue
 
-        if not require_name_consistency and all(s == subs[0] for s in subs):
+        if not require_name_consistency and all(
+            type(s) is type(subs[0]) and s == subs[0] for s in subs
+        ):
             forced_groups.setdefault(subs, []).append(avar)
             continue
 
-- 
2.43.0

