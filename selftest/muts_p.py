"""the crash report (P34)"""
FN = 'node_tree_core/src/utils/functions.rs'
LG = 'node_tree_core/src/structs/logger.rs'
TB = 'node_tree_core/src/structs/node_tree_base.rs'
P34 = ['P34']


def bug(i, *e):
    return (i, 'bug', P34, list(e))


def same(i, *e):
    return (i, 'same', [], list(e))


START = """        if node.is_root() || view_left == 0 {
            return node;
        }
        get_start(tree, unsafe { tree.get_node(node.parent_dyn().unwrap_unchecked().rid()).unwrap_unchecked() }, view_left - 1)
"""
START_FN = "    fn get_start<'a>(tree: &'a NodeTreeBase, node: &'a dyn Node, view_left: usize) -> &'a dyn Node {\n" + START + "    }\n"
CALL_START = "    let draw_from: &dyn Node = get_start(node_tree, origin, view_up);\n"
LOOP = """        for child in node.children() {
            count -= 1;
            let     connector:  &str   = if count == 0 { FINAL_ENTRY } else { OTHER_ENTRY };
"""
LINE = """            *out += &format!("{}{}{}\\n", prefix, connector, if level != 0 { child_name } else { "...".to_string() });
"""
BELOW = """            if !child.childless() && level != 0 {
                let new_prefix: String = format!("{}{}", prefix, if count == 0 { FINAL_CHILD } else { OTHER_CHILD });
                walk(tree, child.rid(), &new_prefix, out, warnings, panics, level - 1);
            }
"""
STATUS = "            child_name = handle_name_and_status(&child_name, child.status(), warnings, panics);\n"
WALK = "    walk(node_tree, draw_from.rid(), \"\", &mut out, &mut warnings, &mut panics, levels + 1);"
WLIST = """    out += "\\n[Same-Frame Warnings]";
    if !warnings.is_empty() {
        for warning in warnings {
            out += &format!("\\n\\u{001b}[33m{}\\u{001b}[0m", warning);
        }
    } else {
        out += "\\nNone";
    }
"""
PLIST = """    out += "\\n\\n[Same-Frame Panics]";
    if !panics.is_empty() {
        for panic in panics {
            out += &format!("\\n\\u{001b}[31m{}\\u{001b}[0m", panic);
        }
    } else {
        out += "\\nNone";
    }
"""
PR = """            println!("
{}{}

\\u{001b}[0m{}{}
Time of Crash: {}
Exit Code: {}

{}\\u{001b}[0m", colour, self.crash_header, node_tree_visual, colour, time, 1, self.crash_footer);
"""
LOGGED = """            self.log += &format!("
{}

{}
Time of Crash: {}
Exit Code: {}

{}", self.crash_header, node_tree_visual, time, 1, self.crash_footer);
"""

MUTS = [
    bug('p34-up-one-less', (FN, "node.is_root() || view_left == 0", "node.is_root() || view_left <= 1")),
    bug('p34-up-all', (FN, ".rid()).unwrap_unchecked() }, view_left - 1)", ".rid()).unwrap_unchecked() }, view_left)")),
    bug('p34-up-owner', (FN, "node.parent_dyn().unwrap_unchecked().rid()", "node.owner_dyn().rid()")),
    bug('p34-up-none', (FN, CALL_START, "    let draw_from: &dyn Node = get_start(node_tree, origin, view_up.min(4));\n")),
    bug('p34-up-down', (FN, "get_start(node_tree, origin, view_up);", "get_start(node_tree, origin, view_down);")),
    bug('p34-levels', (FN, "= view_up + view_down;", "= view_up.max(view_down);")),
    bug('p34-levels-up', (FN, "= view_up + view_down;", "= view_up + view_up;")),
    bug('p34-walk-origin', (FN, "walk(node_tree, draw_from.rid(), \"\"", "walk(node_tree, origin.rid(), \"\"")),
    bug('p34-last-early', (FN, "let     connector:  &str   = if count == 0 {", "let     connector:  &str   = if count <= 1 {")),
    bug('p34-column-early', (FN, "prefix, if count == 0 {", "prefix, if count <= 1 {")),
    bug('p34-swap-connector', (FN, "{ FINAL_ENTRY } else { OTHER_ENTRY }", "{ OTHER_ENTRY } else { FINAL_ENTRY }")),
    bug('p34-swap-column', (FN, "{ FINAL_CHILD } else { OTHER_CHILD }", "{ OTHER_CHILD } else { FINAL_CHILD }")),
    bug('p34-prefix-lost', (FN, "format!(\"{}{}\", prefix, if count", "format!(\"{}{}\", &prefix[..0], if count")),
    bug('p34-prefix-flat', (FN, "walk(tree, child.rid(), &new_prefix,", "walk(tree, child.rid(), prefix,"), (FN, "let new_prefix:", "let _new_prefix:")),
    bug('p34-level-two', (FN, "warnings, panics, level - 1);", "warnings, panics, level.saturating_sub(2));")),
    bug('p34-level-same', (FN, "warnings, panics, level - 1);", "warnings, panics, level);")),
    bug('p34-level-name', (FN, "if level != 0 { child_name }", "if level > 1 { child_name }")),
    bug('p34-level-branch', (FN, "!child.childless() && level != 0", "!child.childless() && level > 1")),
    bug('p34-single', (FN, "!child.childless() && level", "child.num_children() > 1 && level")),
    bug('p34-first-many', (FN, LOOP, LOOP.replace("node.children()", "node.children().into_iter().take(32)"))),
    bug('p34-rev', (FN, LOOP, LOOP.replace("node.children()", "node.children().into_iter().rev()"))),
    bug('p34-skip-dots', (FN, LINE, LINE + "            if level == 0 {\n                break;\n            }\n")),
    bug('p34-wrong-list', (FN, "panics.push(format!", "warnings.push(format!")),
    bug('p34-unlisted', (FN, STATUS, "            if !child.childless() || count == 0 {\n    " + STATUS + "            }\n")),
    bug('p34-message', (FN, "panics.push(format!(\"{} - {}\", child_name, panic))", "panics.push(format!(\"{} - {}\", panic, child_name))")),
    bug('p34-trimmed', (FN, "warnings.push(format!(\"{} - {}\", child_name, warn))", "warnings.push(format!(\"{} - {}\", child_name, warn.lines().next().unwrap_or(\"\")))")),
    bug('p34-no-reset', (FN, "format!(\"\\u{001b}[31m{}\\u{001b}[0m\", child_name)", "format!(\"\\u{001b}[31m{}\", child_name)")),
    bug('p34-same-colour', (FN, "format!(\"\\u{001b}[33m{}\\u{001b}[0m\", child_name)", "format!(\"\\u{001b}[31m{}\\u{001b}[0m\", child_name)")),
    bug('p34-start-status', (FN, "draw_from.status(), &mut warnings", "origin.status(), &mut warnings")),
    bug('p34-start-name', (FN, "handle_name_and_status(draw_from.name()", "handle_name_and_status(origin.name()")),
    bug('p34-start-normal', (FN, "draw_from.status(), &mut warnings", "NodeStatus::Normal, &mut warnings")),
    bug('p34-dots-status', (FN, STATUS, "            child_name = handle_name_and_status(&child_name, node.status(), warnings, panics);\n")),
    bug('p34-list-rev', (FN, "for warning in warnings {", "for warning in warnings.into_iter().rev() {")),
    bug('p34-list-cap', (FN, "for panic in panics {", "for panic in panics.into_iter().take(8) {")),
    bug('p34-list-dedup', (FN, "    if !warnings.is_empty() {", "    warnings.dedup();\n    if !warnings.is_empty() {")),
    bug('p34-list-sort', (FN, "    if !warnings.is_empty() {", "    warnings.sort();\n    if !warnings.is_empty() {")),
    bug('p34-headings', (FN, "[Same-Frame Warnings]", "[Same-Frame Problems]"), (FN, "[Same-Frame Panics]", "[Same-Frame Warnings]"), (FN, "[Same-Frame Problems]", "[Same-Frame Panics]")),
    bug('p34-none-both', (FN, "    if !panics.is_empty() {", "    if panics.len() > 1 {")),
    bug('p34-view-down', (LG, "draw_tree(node_tree, calling, 6, 6)", "draw_tree(node_tree, calling, 6, 0)")),
    bug('p34-log-order', (LG, LOGGED, LOGGED.replace("self.crash_header, node", "self.crash_footer, node").replace("1, self.crash_footer", "1, self.crash_header"))),
    bug('p34-log-time', (LG, LOGGED, LOGGED.replace("time, 1", "DateTime::<Utc>::from(SystemTime::now()), 1"))),
    bug('p34-print-tree', (LG, PR, PR.replace("node_tree_visual, colour", "\"\", colour"))),
    bug('p34-code', (LG, LOGGED, LOGGED.replace("time, 1", "time, 0"))),
    bug('p34-footer-header', (LG, "        self.crash_footer = msg.to_string();", "        self.crash_header = msg.to_string();")),
    bug('p34-header-adds', (LG, "        self.crash_header = msg.to_string();", "        self.crash_header += msg;")),
    bug('p34-header-twice', (TB, "        self.logger.set_default_footer_on_panic(msg);", "        self.logger.set_default_header_on_panic(msg);")),
    # ---- the same
    same('p34-same-enumerate', (FN, "        let mut count: usize     = node.num_children();\n", "        let     count: usize     = node.num_children();\n"),
         (FN, LOOP, LOOP.replace("for child in node.children()", "for (i, child) in node.children().into_iter().enumerate()").replace("            count -= 1;\n", "            let is_last: bool = i + 1 == count;\n").replace("count == 0", "is_last")),
         (FN, "prefix, if count == 0 {", "prefix, if is_last {")),
    same('p34-same-while', (FN, START_FN, ""), (FN, CALL_START, """    let mut draw_from: &dyn Node = origin;
    let mut left:      usize     = view_up;
    while !draw_from.is_root() && left != 0 {
        draw_from = unsafe { node_tree.get_node(draw_from.parent_dyn().unwrap_unchecked().rid()).unwrap_unchecked() };
        left     -= 1;
    }
""")),
    same('p34-same-for', (FN, START_FN, ""), (FN, CALL_START, """    let mut draw_from: &dyn Node = origin;
    for _ in 0..view_up {
        if draw_from.is_root() {
            break;
        }
        draw_from = unsafe { node_tree.get_node(draw_from.parent_dyn().unwrap_unchecked().rid()).unwrap_unchecked() };
    }
""")),
    same('p34-same-start-loop', (FN, START, """        let (mut node, mut left) = (node, view_left);
        loop {
            if left == 0 || node.is_root() {
                return node;
            }
            node  = unsafe { tree.get_node(node.parent_dyn().unwrap_unchecked().rid()).unwrap_unchecked() };
            left -= 1;
        }
""")),
    same('p34-same-start-match', (FN, START, """        if view_left == 0 {
            return node;
        }
        match node.parent_dyn().to_option() {
            Some(parent) => get_start(tree, unsafe { tree.get_node(parent.rid()).unwrap_unchecked() }, view_left - 1),
            None         => node
        }
""")),
    same('p34-same-push', (FN, LINE, """            out.push_str(prefix);
            out.push_str(connector);
            out.push_str(if level != 0 { &child_name } else { "..." });
            out.push('\\n');
""")),
    same('p34-same-write', (FN, LINE, """            let shown = if level == 0 { "...".to_string() } else { child_name };
            let _ = std::fmt::Write::write_fmt(out, format_args!("{prefix}{connector}{shown}\\n"));
""")),
    same('p34-same-helper', (FN, LINE, "            add_line(out, prefix, connector, if level != 0 { &child_name } else { \"...\" });\n"), (FN, "    fn walk(", """    fn add_line(out: &mut String, prefix: &str, connector: &str, text: &str) {
        *out += &format!("{}{}{}\\n", prefix, connector, text);
    }

    fn walk(""")),
    same('p34-same-continue', (FN, LINE + BELOW, """            if level == 0 {
                *out += &format!("{}{}...\\n", prefix, connector);
                continue;
            }
            *out += &format!("{}{}{}\\n", prefix, connector, child_name);
            if child.childless() {
                continue;
            }
            let column: &str = if count != 0 { OTHER_CHILD } else { FINAL_CHILD };
            walk(tree, child.rid(), &[prefix, column].concat(), out, warnings, panics, level - 1);
""")),
    same('p34-same-always-below', (FN, "if !child.childless() && level != 0 {", "if level != 0 {")),
    same('p34-same-section', (FN, WLIST, "    section(&mut out, \"\\n[Same-Frame Warnings]\", \"\\u{001b}[33m\", &warnings);\n"), (FN, PLIST, "    section(&mut out, \"\\n\\n[Same-Frame Panics]\", \"\\u{001b}[31m\", &panics);\n"),
         (FN, "    fn walk(", """    fn section(out: &mut String, title: &str, colour: &str, entries: &[String]) {
        out.push_str(title);
        if entries.is_empty() {
            out.push_str("\\nNone");
            return;
        }
        for entry in entries {
            out.push_str(&format!("\\n{}{}\\u{001b}[0m", colour, entry));
        }
    }

    fn walk(""")),
    same('p34-same-inline', (FN, STATUS, """            child_name = match child.status() {
                NodeStatus::Normal => child_name,
                NodeStatus::JustWarned(warn) => {
                    warnings.push(format!("{} - {}", child_name, warn));
                    format!("\\u{001b}[33m{}\\u{001b}[0m", child_name)
                },
                NodeStatus::JustPanicked(panic) => {
                    panics.push(format!("{} - {}", child_name, panic));
                    format!("\\u{001b}[31m{}\\u{001b}[0m", child_name)
                }
            };
""")),
    same('p34-same-node', (FN, "fn walk(tree: &NodeTreeBase, node_rid: RID, prefix", "fn walk(tree: &NodeTreeBase, node: &dyn Node, prefix"), (FN, "        let     node:  &dyn Node = unsafe { tree.get_node(node_rid).unwrap_unchecked() };\n", ""),
         (FN, "walk(tree, child.rid(), &new", "walk(tree, unsafe { tree.get_node(child.rid()).unwrap_unchecked() }, &new"), (FN, "walk(node_tree, draw_from.rid(),", "walk(node_tree, draw_from,")),
    same('p34-same-returns', (FN, "fn walk(tree: &NodeTreeBase, node_rid: RID, prefix: &str, out: &mut String, warnings: &mut Vec<String>, panics: &mut Vec<String>, level: usize) {", "fn walk(tree: &NodeTreeBase, node_rid: RID, prefix: &str, warnings: &mut Vec<String>, panics: &mut Vec<String>, level: usize) -> String {\n        let mut out: String = String::new();"),
         (FN, LINE, LINE.replace("*out", "out")), (FN, BELOW + "        }\n", BELOW.replace("walk(tree, child.rid(), &new_prefix, out, warnings, panics, level - 1);", "out += &walk(tree, child.rid(), &new_prefix, warnings, panics, level - 1);") + "        }\n        out\n"),
         (FN, WALK, "    out += &walk(node_tree, draw_from.rid(), \"\", &mut warnings, &mut panics, levels + 1);")),
    same('p34-same-report-once', (LG, LOGGED, """            let tail: String = format!("Time of Crash: {}\\nExit Code: {}\\n\\n{}", time, 1, self.crash_footer);
            self.log.push_str(&format!("\\n{}\\n\\n{}\\n{}", self.crash_header, node_tree_visual, tail));
""")),
    same('p34-same-rename', (FN, "fn get_start<'a>", "fn ancestor<'a>"), (FN, "        get_start(tree", "        ancestor(tree"), (FN, "= get_start(node_tree", "= ancestor(node_tree")),
    same('p34-same-level-up', (FN, "let levels:    usize     = view_up + view_down;", "let levels:    usize     = view_up + view_down + 1;"), (FN, "&mut panics, levels + 1);", "&mut panics, levels);")),
    same('p34-same-index', (FN, LOOP, """        let children = node.children();
        let     total: usize     = children.len();
        for (at, child) in children.into_iter().enumerate() {
            let     count:      usize  = total - at - 1;
            let     connector:  &str   = if count == 0 { FINAL_ENTRY } else { OTHER_ENTRY };
"""), (FN, "        let mut count: usize     = node.num_children();\n", "")),
    same('p34-same-struct', (FN, "fn walk(tree: &NodeTreeBase, node_rid: RID, prefix: &str, out: &mut String, warnings: &mut Vec<String>, panics: &mut Vec<String>, level: usize) {", "struct Lists { warnings: Vec<String>, panics: Vec<String> }\n\n    fn walk(tree: &NodeTreeBase, node_rid: RID, prefix: &str, out: &mut String, lists: &mut Lists, level: usize) {"),
         (FN, STATUS, STATUS.replace("warnings, panics", "&mut lists.warnings, &mut lists.panics")), (FN, "&new_prefix, out, warnings, panics, level", "&new_prefix, out, lists, level"),
         (FN, WALK, "    let mut lists: Lists = Lists { warnings, panics };\n    walk(node_tree, draw_from.rid(), \"\", &mut out, &mut lists, levels + 1);\n    let Lists { warnings, panics } = lists;")),
]
STRUCT = MUTS[-1][3]
WHILE = next(m for m in MUTS if m[0] == 'p34-same-while')[3]
FOR = next(m for m in MUTS if m[0] == 'p34-same-for')[3]
SLOOP = next(m for m in MUTS if m[0] == 'p34-same-start-loop')[3]


def sub(es, a, b):
    r = [(f, x, y.replace(a, b)) for f, x, y in es]
    assert r != es, a
    return r


MUTS += [
    bug('p34-while-short', *sub(WHILE, "left != 0", "left > 1")),
    bug('p34-while-far', *sub(WHILE, "&& left != 0", "&& left + 1 != 0")),
    bug('p34-while-root', *sub(WHILE, "!draw_from.is_root() && left != 0", "left != 0 && draw_from.depth() > 1")),
    bug('p34-while-fixed', *sub(WHILE, "left     -= 1", "left     -= 0")),
    bug('p34-for-short', *sub(FOR, "0..view_up", "1..view_up")),
    bug('p34-for-far', *sub(FOR, "0..view_up", "0..=view_up")),
    bug('p34-for-early', *sub(FOR, "if draw_from.is_root() {", "if draw_from.is_root() || draw_from.num_children() > 8 {")),
    bug('p34-sloop-one', *sub(SLOOP, "left == 0 ||", "left == 1 ||")),
    bug('p34-struct-list', *sub(STRUCT, "&mut lists.warnings, &mut lists.panics", "&mut lists.panics, &mut lists.warnings")),
    bug('p34-struct-lost', *sub(STRUCT, "let Lists { warnings, panics } = lists;", "let Lists { warnings, panics } = Lists { warnings: lists.warnings, panics: Vec::from_iter(lists.panics.into_iter().skip(1)) };")),
    same('p34-same-struct-out', (FN, "fn walk(tree: &NodeTreeBase, node_rid: RID, prefix: &str, out: &mut String, warnings: &mut Vec<String>, panics: &mut Vec<String>, level: usize) {", "struct Report { out: String, warnings: Vec<String>, panics: Vec<String> }\n\n    fn walk(tree: &NodeTreeBase, node_rid: RID, prefix: &str, report: &mut Report, level: usize) {"),
         (FN, STATUS, STATUS.replace("warnings, panics", "&mut report.warnings, &mut report.panics")), (FN, LINE, LINE.replace("*out", "report.out")), (FN, "&new_prefix, out, warnings, panics, level", "&new_prefix, report, level"),
         (FN, WALK, "    let mut report: Report = Report { out, warnings, panics };\n    walk(node_tree, draw_from.rid(), \"\", &mut report, levels + 1);\n    let Report { mut out, warnings, panics } = report;"), (FN, "    let mut out: String = format!(\"[REPORT", "    let out: String = format!(\"[REPORT")),
]
MUTS += [
    bug('p34-far-sibling', (FN, "let     connector:  &str   = if count == 0 {", "let     connector:  &str   = if count == 0 || count == 64 {")),
    bug('p34-far-level', (FN, "if level != 0 { child_name }", "if level != 0 && level < 40 { child_name }")),
    bug('p34-far-branch', (FN, "!child.childless() && level != 0", "!child.childless() && level != 0 && level != 25")),
    bug('p34-far-up', (FN, "node.is_root() || view_left == 0", "node.is_root() || view_left == 0 || view_left == 100")),
    bug('p34-far-sum', (FN, "let levels:    usize     = view_up + view_down;", "let levels:    usize     = (view_up + view_down).min(80);")),
    same('p34-same-last', (FN, "let     connector:  &str   = if count == 0 {", "let     connector:  &str   = if count < 1 {")),
]
