P="src/parser/mod.rs"; A="src/analyzer/mod.rs"; I="src/analyzer/indexer.rs"; H="src/analyzer/helper.rs"; G="src/dbml.pest"; L="src/lib.rs"
bug("P01-error-excerpt","P01",[(A,
"""                let err = Err::InvalidDefaultValue { raw_value: val.clone(), raw_type: col.r#type.raw.clone() };""",
"""                // keep messages short
                let shown = &val[..val.len().min(80)];
                let err = Err::InvalidDefaultValue { raw_value: shown.to_string(), raw_type: col.r#type.raw.clone() };""")],
'''fn main() { bad(&format!("Project p {{}} Table t {{ c varchar(5) [default: 'a{}'] }}", "é".repeat(60))); ok(&format!("Project p {{}} Table t {{ c varchar(500) [default: 'a{}'] }}", "é".repeat(60))); }''',
"a string default of more than 80 bytes with a multi-byte character across byte 80","the checked parse panics while it prepares a message, even for a default that fits")
bug("P01-enum-recursion","P01",[(P,
"""  pair
    .into_inner()
    .map(|p1| {
      match p1.as_rule() {
        Rule::enum_value => Ok(parse_enum_value(p1)?),
        _ => throw_rules(&[Rule::enum_value], p1)?,
      }
    })
    .collect()
""",
"""  fn rest(mut pairs: pest::iterators::Pairs<Rule>, mut acc: Vec<EnumValue>) -> ParserResult<Vec<EnumValue>> {
    match pairs.next() {
      Some(p1) => {
        match p1.as_rule() {
          Rule::enum_value => acc.push(parse_enum_value(p1)?),
          _ => throw_rules(&[Rule::enum_value], p1)?,
        }
        rest(pairs, acc)
      }
      None => Ok(acc),
    }
  }

  rest(pair.into_inner(), vec![])
""")],
'''fn main() { std::thread::spawn(|| { let s = format!("Enum e {{ {} }}", (0..60000).map(|i| format!("v{i} ")).collect::<String>()); assert_eq!(raw(&s).enums()[0].values.len(), 60000); }).join().unwrap(); }''',
"an enum with thousands of values on a thread with an ordinary stack","the parser recurses once per enum value and overflows the stack")
bug("P02-concat","P02",[(P,
"""  pair.into_inner().try_fold(init, |mut acc, p1| {
    match p1.as_rule() {
      Rule::indexes_single | Rule::indexes_multi => acc.defs.push(parse_indexes_single_multi(p1)?),
""",
"""  pair.into_inner().try_fold(init, |mut acc, p1| {
    match p1.as_rule() {
      Rule::indexes_single | Rule::indexes_multi => acc.defs = [acc.defs, vec![parse_indexes_single_multi(p1)?]].concat(),
""")],
'''use std::time::Instant;
fn t(n: usize) -> f64 { let s = format!("Table t {{ Indexes {{ {} }} }}", (0..n).map(|i| format!("c{i} [name: 'x']\\n")).collect::<String>()); let t = Instant::now(); raw(&s); t.elapsed().as_secs_f64() }
fn main() { t(10); let (mut a, mut b) = (f64::MAX, f64::MAX); for _ in 0..3 { a = a.min(t(300)); b = b.min(t(2400)); } assert!(b < a * 24.0, "{a} {b}"); }''',
"an indexes block with many definitions","every definition copies all earlier ones: quadratic time and memory")
bug("P02-cubic","P02",[(A,
"""      .filter(|other_indexed_ref| indexed_ref.occupy_same_column(other_indexed_ref, &indexer))
""",
"""      .filter(|other_indexed_ref| {
        other_indexed_ref.validate_ref_type(&tables, &indexer, input).is_ok()
          && indexed_ref.occupy_same_column(other_indexed_ref, &indexer)
      })
""")],
'''use std::time::Instant;
fn t(n: usize) -> f64 { let s = format!("Project p {{}} {}", (0..n).map(|i| format!("Table t{i} {{ id int [pk]\\n next int [ref: > t{}.id] }}\\n", (i + 1) % n)).collect::<String>()); let t = Instant::now(); ok(&s); t.elapsed().as_secs_f64() }
fn main() { t(10); let (mut a, mut b) = (f64::MAX, f64::MAX); for _ in 0..3 { a = a.min(t(60)); b = b.min(t(480)); } assert!(b < a * 150.0, "{a} {b}"); }''',
"many tables with many relations among them","the conflict check revalidates every relation for every relation: cubic time")
bug("P03-dedupe-refs","P03",[(P,
"""      Rule::ref_decl => acc.blocks.push(TopLevelBlock::Ref(parse_ref_decl(p1)?)),
""",
"""      Rule::ref_decl => {
        let block = parse_ref_decl(p1)?;
        // a relation may come again from an included file
        let seen = acc.refs().iter().any(|r| input[r.span_range.clone()] == input[block.span_range.clone()] && r.name.is_some());
        if !seen {
          acc.blocks.push(TopLevelBlock::Ref(block))
        }
      }
""")],
'''fn main() { let s = "Ref a: x.a > y.b\\nRef b: x.a > y.b\\nRef: x.a > y.c\\n"; assert_eq!(raw(s).refs().len(), 3); }''',
"two relations with the same endpoints text, the first of them named","the second declaration is dropped")
bug("P03-alias-quoted","P03",[(P,
"""            Rule::ident => acc.ident.alias = Some(parse_ident(p2)?),
""",
"""            Rule::ident => {
              let alias = parse_ident(p2)?;
              // an alias equal to the name adds nothing
              acc.ident.alias = (alias.to_string != acc.ident.name.to_string).then_some(alias)
            }
""")],
'''fn main() { let s = "Table s.t as t { }"; assert!(raw(s).tables()[0].ident.alias.is_some()); }''',
"a table whose alias equals its own name","the declared alias is not reported (and a schema-qualified table cannot be named by it)")
bug("P09-group-note","P09",[(P,
"""            Rule::note_decl => acc.note = Some(parse_note_decl(p2)?),
            _ => throw_rules(&[Rule::decl_ident, Rule::note_decl], p2)?,
""",
"""            Rule::note_decl if acc.items.is_empty() || acc.note.is_none() => acc.note = Some(parse_note_decl(p2)?),
            Rule::note_decl => (),
            _ => throw_rules(&[Rule::decl_ident, Rule::note_decl], p2)?,
""")],
'''fn main() { let s = "TableGroup g { Note: 'a'\\n x Note: 'b' }"; assert_eq!(raw(s).table_groups()[0].note.as_ref().unwrap().value.value, Value::String("b".into())); }''',
"a table group with two notes, the second one after an item","the first note wins")
bug("P11-ref-dot","P11",[(G,
"""ref_composition = { ident | ("(" ~ ident ~ ("," ~ ident)* ~ ")") }
ref_ident = { ident ~ "." ~ (ident ~ ".")? ~ ref_composition }
""",
"""ref_composition = !{ ident | ("(" ~ ident ~ ("," ~ ident)* ~ ")") }
ref_ident = ${ ident ~ WHITESPACE* ~ "." ~ WHITESPACE* ~ (ident ~ WHITESPACE* ~ "." ~ WHITESPACE*)? ~ ref_composition }
""")],
'''fn main() { let s = "Ref: a /* x */ . b > c.d"; raw(s); }''',
"a comment between the parts of a relation's endpoint","the text is rejected")
bug("P12-indexes-case","P12",[(G,
"""indexes_decl = { ^"Indexes" ~ indexes_block }
""",
"""indexes_decl = { ("Indexes" | "indexes") ~ indexes_block }
""")],
'''fn main() { let s = "Table t { a int\\n INDEXES { a } }"; raw(s); }''',
"the indexes keyword in other than the two usual spellings","the text is rejected")
bug("P13-trailing-comma","P13",[(G,
"""rel_settings = { "[" ~ (attribute ~ ("," ~ attribute)*)? ~ "]" }
""",
"""rel_settings = { "[" ~ (attribute ~ ("," ~ attribute?)*)? ~ "]" }
""")],
'''fn main() { for s in ["Ref: a.b > c.d [delete: cascade,]", "Ref: a.b > c.d [delete: cascade,, x]"] { assert!(parse_dbml_unchecked(s).is_err()); } raw("Ref: a.b > c.d [delete: cascade, x]"); }''',
"a relation's settings with a superfluous comma","malformed text is accepted")
bug("P14-array-pos","P14",[(P,
"""                      Err(err) => throw_msg(err.to_string(), p3)?,
                    };

                    Ok(val)
""",
"""                      Err(err) => {
                        return Err(pest::error::Error::new_from_pos(
                          pest::error::ErrorVariant::CustomError { message: err.to_string() },
                          p3.as_span().end_pos(),
                        ))
                      }
                    };

                    Ok(val)
""")],
'''fn main() { let s = "Table t { c int[99999999999] }"; let e = parse_dbml_unchecked(s).err().unwrap(); match e.location { pest_loc => assert!(format!("{pest_loc:?}").contains("16"), "{pest_loc:?}") } }''',
"an array size that does not fit","the error points behind the number instead of at it")
bug("P15-note-merge","P15",[(P,
"""      Rule::note_decl => acc.blocks.push(TopLevelBlock::Note(parse_note_decl(p1)?)),
""",
"""      Rule::note_decl => {
        let note = parse_note_decl(p1)?;
        match acc.blocks.last_mut() {
          // a note right after an empty project describes it
          Some(TopLevelBlock::Project(project)) if project.note.is_none() && project.properties.is_empty() => project.note = Some(note),
          _ => acc.blocks.push(TopLevelBlock::Note(note)),
        }
      }
""")],
'''fn main() { let s = "Project p { }\\nNote: 'a'"; let d = raw(s); assert_eq!(d.blocks.len(), 2); assert!(d.projects()[0].note.is_none()); }''',
"a top-level note directly after a project without note and properties","the note becomes part of the project")
bug("P04-array-order","P04",[(P,
"""              out.arrays.push(val)
""",
"""              match (val, out.arrays.last()) {
                // an unbounded dimension is always the outermost
                (None, Some(Some(_))) if schema.is_some() => out.arrays.insert(0, val),
                _ => out.arrays.push(val),
              }
""")],
'''fn main() { let s = "Table t { c s.int[2][] }"; assert_eq!(raw(s).tables()[0].cols[0].r#type.arrays, vec![Some(2), None]); }''',
"a schema-qualified type with a sized dimension followed by an unsized one","the dimensions are reported in another order")
bug("P05-inline-delete","P05",[(P,
"""                  Err(msg) => throw_msg(msg, p1)?,
                }
              }
              _ => None,
            }
          }
          "delete" => {
""",
"""                  Err(msg) => throw_msg(msg, p1)?,
                }
              }
              // the last well-formed one
              _ => acc.on_update,
            }
          }
          "delete" => {
""")],
'''fn main() { let d = raw("Ref: a.b > c.d [update: cascade, update: 'x']"); assert!(d.refs()[0].settings.as_ref().unwrap().on_update.is_none()); }''',
"a relation with two update settings, the last one of another kind than a word","the derived action comes from a setting that is not the last one")
bug("P05-note-only-string","P05",[(P,
"""                "note" => settings.note = attr.value.clone().map(|v| v.value.to_string()),
""",
"""                "note" => {
                  settings.note = match attr.value.as_ref().map(|v| &v.value) {
                    Some(Value::String(note)) => Some(note.clone()),
                    _ => None,
                  }
                }
""")],
'''fn main() { let d = raw("Enum e { a [note: `x`] }"); assert!(d.enums()[0].values[0].settings.as_ref().unwrap().note.is_some()); }''',
"an enum value whose note is not a quoted string","the note flag is not set")
bug("P06-decimal","P06",[(P,
"""          match p2.as_str().parse::<f64>() {
            Ok(val) => Ok(Value::Decimal(val)),
            Err(err) => throw_msg(err.to_string(), p2)?,
          }
""",
"""          let text = p2.as_str();
          let (whole, frac) = text.split_once('.').unwrap_or((text, ""));
          match (whole.parse::<f64>(), frac.parse::<u64>()) {
            // whole and fractional digits are exact on their own
            (Ok(val), Ok(0)) if frac.len() < 16 => Ok(Value::Decimal(val)),
            (Ok(val), Ok(frac_val)) if frac.len() < 16 && frac_val < 1 << 53 => {
              Ok(Value::Decimal(val + frac_val as f64 / 10u64.pow(frac.len() as u32) as f64))
            }
            _ => {
              match text.parse::<f64>() {
                Ok(val) => Ok(Value::Decimal(val)),
                Err(err) => throw_msg(err.to_string(), p2)?,
              }
            }
          }
""")],
'''fn main() { for i in 0..4000u64 { let t = format!("{}.{}", i * 37 % 5000, 1 + i * 7919 % 99991); let s = format!("Table t {{ c int [default: {t}] }}"); assert_eq!(raw(&s).tables()[0].cols[0].settings.as_ref().unwrap().default, Some(Value::Decimal(t.parse().unwrap())), "{t}"); } }''',
"a decimal whose parts do not add up exactly","two roundings: the value is not the nearest one")
bug("P06-int-float","P06",[(P,
"""          match p2.as_str().parse::<i64>() {
            Ok(val) => Ok(Value::Integer(val)),
            Err(err) => throw_msg(err.to_string(), p2)?,
          }
""",
"""          match p2.as_str().parse::<i128>() {
            Ok(val) if val.unsigned_abs() <= 1 << 63 => Ok(Value::Integer(val as i64)),
            Ok(_) => throw_msg("number too large to fit in target type".to_string(), p2)?,
            Err(err) => throw_msg(err.to_string(), p2)?,
          }
""")],
'''fn main() { assert!(parse_dbml_unchecked("Table t { c int [default: 9223372036854775808] }").is_err()); assert!(parse_dbml_unchecked("Table t { c int [default: 9223372036854775807] }").is_ok()); }''',
"the integer 9223372036854775808","it wraps around to a negative number instead of being rejected")
bug("P07-mirror","P07",[(P,
"""          acc.lhs = value;
        } else {
          acc.rhs = value;
        }
""",
"""          acc.lhs = value;
        } else if acc.rel == Relation::One2Many && acc.lhs.compositions.len() == 1 && value.compositions.len() == 1
          && acc.lhs.schema.is_some() && value.schema.is_none()
        {
          // normalized: the many side first
          acc.rhs = core::mem::replace(&mut acc.lhs, value);
          acc.rel = Relation::Many2One;
        } else {
          acc.rhs = value;
        }
""")],
'''fn main() { let s = "Ref: s.a.x < b.x"; let d = raw(s); let r = d.refs()[0]; assert_eq!(r.rel, Relation::One2Many); assert_eq!(r.lhs.table.to_string, "a"); }''',
"a one-to-many relation with a schema on its left side only","kind and sides are exchanged")
bug("P08-expr","P08",[(P,
"""          Ok(IndexesColumnType::Expr(Literal {
            span_range: s2r(p1.as_span()),
            raw: p1.as_str().to_string(),
            value: Value::String(p2.as_str().to_string()),
          }))
""",
"""          let text = p2.as_str();
          if !text.is_empty() && text.chars().all(|c| c.is_ascii_alphabetic() || c == '_') {
            // a bare name in back quotes is a column
            return Ok(IndexesColumnType::String(Ident {
              span_range: s2r(p2.as_span()),
              raw: text.to_string(),
              to_string: text.to_string(),
            }));
          }
          Ok(IndexesColumnType::Expr(Literal {
            span_range: s2r(p1.as_span()),
            raw: p1.as_str().to_string(),
            value: Value::String(text.to_string()),
          }))
""")],
'''fn main() { let s = "Table t { Indexes { `now` } }"; assert!(matches!(raw(s).tables()[0].indexes.as_ref().unwrap().defs[0].cols[0], IndexesColumnType::Expr(_))); }''',
"an index expression that is a single word of letters","it is reported as a column")
bug("P10-char-span","P10",[(P,
"""          Ok(IndexesColumnType::Expr(Literal {
            span_range: s2r(p1.as_span()),
            raw: p1.as_str().to_string(),
""",
"""          let start = p1.as_span().start();
          Ok(IndexesColumnType::Expr(Literal {
            span_range: start..start + p1.as_str().chars().count(),
            raw: p1.as_str().to_string(),
""")],
'''fn main() { let s = "Table t { Indexes { `é+1` } }"; match &raw(s).tables()[0].indexes.as_ref().unwrap().defs[0].cols[0] { IndexesColumnType::Expr(e) => assert_eq!(&s[e.span_range.clone()], "`é+1`"), _ => panic!() } }''',
"an index expression with a multi-byte character","its span ends too early, possibly inside a character")
bug("P10-note-block","P10",[(P,
"""                NoteBlock {
                  span_range: s2r(p1.as_span()),
""",
"""                NoteBlock {
                  span_range: p1.as_span().start()..p1.as_span().start() + p1.as_str().find('}').map_or(p1.as_str().len(), |i| i + 1),
""")],
'''fn main() { let s = "Note { 'a}b' }"; if let TopLevelBlock::Note(n) = &raw(s).blocks[0] { assert!(n.value.span_range.end <= n.span_range.end) } }''',
"a note whose text contains a closing brace","the note's span ends inside its text")
bug("P16-bom","P16",[(L,
"""  let ast = parse_dbml_unchecked(input)?;
""",
"""  // files from some editors start with a byte order mark
  let ast = parse_dbml_unchecked(input.trim_start_matches('\\u{feff}'))?;
""")],
'''fn main() { let s = "\\u{feff}Project p { }"; assert_eq!(parse_dbml(s).is_ok(), parse_dbml_unchecked(s).is_ok()); }''',
"a text that starts with a byte order mark","the checked parse accepts what the unchecked one rejects")
bug("P17-enum-table","P17",[(I,
"""      if self.contains_enum(&schema, &name.to_string) {
""",
"""      // both are types of the schema
      if self.contains_enum(&schema, &name.to_string) || (schema != DEFAULT_SCHEMA && self.contains_table(&schema, &name.to_string)) {
""")],
'''fn main() { ok("Project p {} Table s.a { } Enum s.a { }"); }''',
"a table and an enum of the same name in a schema other than the default one","a valid document is rejected")
bug("P17-alias-table","P17",[(I,
"""        if let Some(_) = self
          .table_alias_map
          .insert(alias.to_string.clone(), (schema.clone(), name.to_string.clone()))
        {
""",
"""        let known = self.contains_table(&schema, &alias.to_string) && alias.to_string != name.to_string;
        if let (Some(_), _) | (_, true) = (
          self.table_alias_map.insert(alias.to_string.clone(), (schema.clone(), name.to_string.clone())),
          known && schema != DEFAULT_SCHEMA,
        ) {
""")],
'''fn main() { ok("Project p {} Table s.a { } Table s.b as a { }"); }''',
"an alias that equals the name of an earlier table of the same (not default) schema","a valid document is rejected")
bug("P18-raw-enum-value","P18",[(I,
"""        if !value_sets.insert(value.value.to_string.clone()) {
          throw_err(Err::DuplicateEnumValue, &value.span_range, input)?;
        }
      }
""",
"""        value_sets.insert(value.value.to_string.clone());
      }
      if let Some((_, value)) = r#enum.values.iter().enumerate().find(|(i, v)| r#enum.values[..*i].iter().any(|w| w.value.raw == v.value.raw)) {
        throw_err(Err::DuplicateEnumValue, &value.span_range, input)?;
      }
""")],
'''fn main() { bad("Project p {} Enum e { a \\"a\\" }"); bad("Project p {} Enum e { a a }"); }''',
"an enum value given once bare and once in double quotes","the duplicate is not noticed")
bug("P18-group-alias","P18",[(I,
"""              Some(ident) => ident.clone(),
              None => {
""",
"""              Some(ident) if ident.0 == DEFAULT_SCHEMA => ident.clone(),
              Some(ident) => (String::new(), ident.1.clone()),
              None => {
""")],
'''fn main() { bad("Project p {} Table s.a as x { } TableGroup g { x s.a }"); }''',
"a group that lists a table of another schema by alias and by name","the duplicate item is not noticed")
bug("P18-case","P18",[(H,
"""    .filter(|attr| !acc.insert(&attr.key.to_string))
    .cloned()
    .collect();

  // TODO: handle multiple errs
  if let Some(prop)""",
"""    .filter(|attr| !acc.insert(attr.key.to_string.to_lowercase()))
    .cloned()
    .collect();

  // TODO: handle multiple errs
  if let Some(prop)""")],
'''fn main() { ok("Project p { a: 'x' A: 'y' }"); bad("Project p { a: 'x' a: 'y' }"); }''',
"project properties whose keys differ in letter case only","a valid document is rejected")
bug("P19-index-expr","P19",[(A,
"""            if !table.cols.iter().any(|col| col.name.to_string == col_name.to_string) {
""",
"""            if !table.cols.iter().any(|col| col.name.to_string.trim() == col_name.to_string.trim()) {
""")],
'''fn main() { bad("Project p {} Table a { x int\\n Indexes { \\" x\\" } }"); ok("Project p {} Table a { x int\\n Indexes { \\"x\\" } }"); }''',
"an index column that differs from a column in blanks at its ends only","the dangling name is not noticed")
bug("P20-args","P20",[(I,
"""      if l_type.type_name != r_type.type_name || l_type.args != r_type.args || l_type.arrays != r_type.arrays {
""",
"""      let same_args = l_type.args.iter().zip(r_type.args.iter()).all(|(l, r)| l == r);
      if l_type.type_name != r_type.type_name || !same_args || l_type.arrays != r_type.arrays {
""")],
'''fn main() { bad("Project p {} Table a { x varchar(3) [pk] } Table b { x varchar [ref: > a.x] }"); }''',
"a foreign key whose type has no arguments while the referenced one has","the mismatch is not noticed")
bug("P20-key-superset","P20",[(I,
"""            compositions.len() == def_item.cols.len()
              && def_item.settings""",
"""            compositions.len() <= def_item.cols.len()
              && def_item.settings"""),(H,
"""  BTreeSet::from_iter(lhs) == BTreeSet::from_iter(rhs)
""",
"""  let (lhs, rhs) = (BTreeSet::from_iter(lhs), BTreeSet::from_iter(rhs));
  lhs.len() == rhs.len() && lhs.is_subset(&rhs)
""")],
'''fn main() { bad("Project p {} Table a { x int\\n y int\\n Indexes { (x, y, `z`) [pk] } } Table b { x int\\n y int } Ref: b.(x, y) > a.(x, y)"); }''',
"a composite reference to a key that has an expression besides the referenced columns","a reference to a part of a key is accepted")
bug("P21-o2o-mirrored","P21",[(I,
"""        [&self.lhs, &self.rhs].iter().all(|self_side| {
          [&other.lhs, &other.rhs].iter().any(|other_side| {
            let self_ident = indexer.resolve_ref_alias(self_side);
            let other_ident = indexer.resolve_ref_alias(other_side);

            eq_ident(&self_ident, &other_ident)
          })
        })
""",
"""        [(&self.lhs, &other.lhs), (&self.rhs, &other.rhs)].iter().all(|(self_side, other_side)| {
          let self_ident = indexer.resolve_ref_alias(self_side);
          let other_ident = indexer.resolve_ref_alias(other_side);

          eq_ident(&self_ident, &other_ident)
        })
""")],
'''fn main() { bad("Project p {} Table a { x int [pk] } Table b { x int [pk] } Ref: a.x - b.x\\nRef: b.x - a.x"); }''',
"two one-to-one relations that join the same columns in opposite directions","the conflict is not noticed")
bug("P21-alias-composite","P21",[(I,
"""          (Some(self_ident), Some(other_ident)) => {
            let self_ident = indexer.resolve_ref_alias(self_ident);
            let other_ident = indexer.resolve_ref_alias(other_ident);
""",
"""          (Some(self_ident), Some(other_ident)) => {
            if self_ident.compositions.iter().zip(&other_ident.compositions).any(|(l, r)| l.to_string != r.to_string) {
              return false;
            }
            let self_ident = indexer.resolve_ref_alias(self_ident);
            let other_ident = indexer.resolve_ref_alias(other_ident);
""")],
'''fn main() { bad("Project p {} Table a { x int\\n y int\\n Indexes { (x, y) [pk] } } Table b { x int\\n y int } Ref: b.(x, y) > a.(x, y)\\nRef: b.(y, x) > a.(y, x)"); }''',
"two composite relations with the same columns in different order","the conflict is not noticed")
bug("P22-null-twice","P22",[(A,
"""        if filtered.len() == 2 {
""",
"""        if filtered.len() == 2 && settings.nullable != Some(Nullable::NotNull) {
""")],
'''fn main() { bad("Project p {} Table t { a int [null, not null] }"); bad("Project p {} Table t { a int [not null, null] }"); }''',
"a column that is null first and not null later","the conflict is not noticed")
bug("P23-second-type","P23",[(A,
"""                      | ColumnTypeName::Timestamptz
                      | ColumnTypeName::Bit
""",
"""                      | ColumnTypeName::Bit
"""),(A,
"""                      ColumnTypeName::Decimal => {
                        if col.r#type.args.len() != 2 {
""",
"""                      ColumnTypeName::Timestamptz if col.r#type.args.len() < 2 => (),
                      ColumnTypeName::Decimal => {
                        if col.r#type.args.len() != 2 {
"""),(A,
"""                    if !col.r#type.args.iter().all(|arg| matches!(arg, Value::Integer(_))) {
""",
"""                    if type_name != ColumnTypeName::Timestamptz && !col.r#type.args.iter().all(|arg| matches!(arg, Value::Integer(_))) {
""")],
'''fn main() { bad("Project p {} Table t { a timestamptz('x') }"); ok("Project p {} Table t { a timestamptz(3) }"); }''',
"a timestamptz with one argument that is not an integer","the argument is accepted")
bug("P24-last-field","P24",[(I,
"""            if let Some(first) = unlisted_fields.first() {
""",
"""            if let Some(first) = unlisted_fields.iter().min_by_key(|_| fields.len()).or(unlisted_fields.first()).and(fields.first()) {
""")],
'''fn main() { let m = msg("Project p {}\\nTable a { x int\\n y int }\\nRef: a.(x, z) > a.(x, y)"); assert!(m.contains("3:12") || m.contains("4:12") || m.contains("5:12"), "{m}"); }''',
"a composite endpoint whose first column exists and a later one does not","the error points at the column that exists")
bug("P24-swapped-names","P24",[(I,
"""          r_ident: r.to_string.clone(),
          l_ident: l.to_string.clone(),
""",
"""          r_ident: rhs_ident.compositions[0].to_string.clone(),
          l_ident: lhs_ident.compositions[0].to_string.clone(),
""")],
'''fn main() { let m = msg("Project p {}\\nTable a { x int\\n y1 int\\n Indexes { (x, y1) [pk] } }\\nTable b { x int\\n y2 char }\\nRef: b.(x, y2) > a.(x, y1)"); assert!(m.contains("y1") && m.lines().any(|l| l.contains("y2") && l.contains("y1") && !l.contains("Ref")), "{m}"); }''',
"a composite relation whose second column pair differs in type","the message names the first pair")
bug("P17-enum-schema","P17",[(I,
"""    match self.schema_map.get(&schema) {
      Some(block) => {
        match block.enum_map.get(enum_name) {
""",
"""    match self.schema_map.get(&schema).filter(|block| schema == DEFAULT_SCHEMA || !block.table_map.is_empty() || block.enum_map.len() > 1) {
      Some(block) => {
        match block.enum_map.get(enum_name) {
""")],
'''fn main() { ok("Project p {} Enum s.e { a } Table t { c s.e [default: a] }"); }''',
"a schema that has nothing but one enum, which a column with a default uses","a valid document is rejected")
bug("P26-adjacent","P26",[(H,
"""    .filter(|attr| !acc.insert(&attr.key.to_string))
    .cloned()
    .collect();

  // TODO: handle multiple errs
  if let Some(attr)""",
"""    .filter(|attr| acc.replace(&attr.key.to_string).is_some() && acc.last() == Some(&&attr.key.to_string))
    .cloned()
    .collect();

  // TODO: handle multiple errs
  if let Some(attr)""")],
'''fn main() { bad("Project p {} Table t { a int [pk, note: 'x', unique, note: 'y'] }"); bad("Project p {} Table t { a int [note: 'x', note: 'y', pk, unique] }"); }''',
"a repeated key that is not the greatest of those before it","whether the duplicate is noticed depends on the order of the settings")
bug("P26-pk-order","P26",[(A,
"""          if settings.nullable == Some(Nullable::Null) {
            throw_err(Err::NullablePrimaryKey, &col.span_range, input)?;
          }
""",
"""          let last_null = settings.attributes.iter().rposition(|a| a.key.to_string == "null");
          let last_pk = settings.attributes.iter().rposition(|a| ["pk", "primary key"].contains(&a.key.to_string.as_str()));
          if last_null > last_pk {
            throw_err(Err::NullablePrimaryKey, &col.span_range, input)?;
          }
""")],
'''fn main() { bad("Project p {} Table t { a int [pk, null] }"); bad("Project p {} Table t { a int [null, pk] }"); }''',
"a nullable primary key column whose null setting comes first","whether it is rejected depends on the order of the settings")
bug("P27-atomic-depth","P27",[(P,
"""pub fn parse(input: &str) -> ParserResult<SchemaBlock> {
  let pair = DBMLParser::parse(Rule::schema, input)?
    .next()
    .ok_or_else(|| unreachable!("unhandled parsing error"))?;

  match pair.as_rule() {
    Rule::schema => Ok(parse_schema(pair, input)?),
    _ => throw_rules(&[Rule::schema], pair)?,
  }
}
""",
"""pub fn parse(input: &str) -> ParserResult<SchemaBlock> {
  static CALLS: core::sync::atomic::AtomicU8 = core::sync::atomic::AtomicU8::new(0);
  // keep runaway scripts from starving others
  let calls = CALLS.fetch_add(1, core::sync::atomic::Ordering::Relaxed);
  if calls > 250 {
    pest::set_call_limit(core::num::NonZeroUsize::new(50_000));
  } else {
    pest::set_call_limit(None);
  }
  let pair = DBMLParser::parse(Rule::schema, input)?
    .next()
    .ok_or_else(|| unreachable!("unhandled parsing error"))?;

  match pair.as_rule() {
    Rule::schema => Ok(parse_schema(pair, input)?),
    _ => throw_rules(&[Rule::schema], pair)?,
  }
}
""")],
'''fn main() { let s = format!("Project p {{}} {}", (0..400).map(|i| format!("Table t{i} {{ a int\\n b int }} ")).collect::<String>()); for i in 0..600 { ok(if i < 240 { "Project p {}" } else { &s }); } }''',
"a text of some kilobytes parsed after a few hundred other parses","it is rejected although the same text was accepted before")
bug("P28-unresolved","P28",[("src/utils/mod.rs",
"""    if eq(table_ident, &lhs_ident) && eq(table_ident, &rhs_ident) {
""",
"""    if eq(table_ident, &ref_block.lhs) && eq(table_ident, &ref_block.rhs) {
""")],
'''use dbml_rs::verif_hooks::*;
fn main() { let s = "Project p {} Table a as x { i int [pk]\\n j int } Ref: x.j > a.i"; let d = raw(s); let i = analyze(&d).ok().unwrap(); let r = get_table_refs(&d.tables()[0].ident, &i); assert_eq!(r.ref_self.len(), 1); }''',
"a self relation that names the table by alias on one side","it is classified as outgoing","--cfg dbml_verif")
bug("P29-inline-many","P29",[(I,
"""        let RefInline { span_range, rel, rhs } = ref_block;
""",
"""        let RefInline { span_range, rel, rhs } = ref_block;
        // a one-to-one relation is symmetric, the table's own side may be the many side
        let rel = match rel {
          Relation::One2One if rhs.table.to_string == table_ident.name.to_string => Relation::Many2One,
          rel => rel,
        };
""")],
'''use dbml_rs::verif_hooks::*;
fn main() { let s = "Project p {} Table a { i int [pk]\\n j int [ref: - a.i] }"; let d = raw(s); let i = analyze(&d).ok().unwrap(); assert_eq!(i.indexed_refs[0].rel, Relation::One2One); }''',
"an inline one-to-one relation of a table to itself","it is listed as many-to-one","--cfg dbml_verif")
bug("P29-ref-order","P29",[(A,
"""      indexed_refs.extend(indexed_ref);
""",
"""      match indexed_ref.len() {
        0 | 1 => indexed_refs.extend(indexed_ref),
        _ => indexed_refs.extend(indexed_ref.into_iter().rev()),
      }
""")],
'''use dbml_rs::verif_hooks::*;
fn main() { let s = "Project p {} Table a { i int [pk, ref: < b.i, ref: < b.j] } Table b { i int\\n j int }"; let d = raw(s); let i = analyze(&d).ok().unwrap(); assert_eq!(i.indexed_refs[0].rhs.compositions[0].to_string, "i"); }''',
"a column with two inline relations","they are listed in reverse order","--cfg dbml_verif")

bug("P19-enum-schema","P19",[(I,
"""    match self.schema_map.get(&schema) {
      Some(block) => {
        match block.enum_map.get(enum_name) {
""",
"""    let block = self.schema_map.get(&schema).map(|block| match block.enum_map.contains_key(enum_name) {
      true => block,
      // a shared enum
      false => self.schema_map.get(DEFAULT_SCHEMA).unwrap_or(block),
    });
    match block {
      Some(block) => {
        match block.enum_map.get(enum_name) {
""")],
"""fn main() { bad("Project p {} Enum e { a } Table s.t { c s.e [default: a] }"); ok("Project p {} Enum e { a } Table s.t { c e [default: a] }"); }""",
"a type qualified by an existing schema that lacks the enum while the default schema has it","the dangling enum is not noticed")
bug("P25-group-direct","P25",[(I,
"""                let has_table = self
                  .schema_map
                  .get(DEFAULT_SCHEMA)
                  .iter()
                  .any(|item| item.table_map.contains_key(&group_item.ident_alias.to_string));
""",
"""                let has_table = self.contains_table(&DEFAULT_SCHEMA.to_string(), &group_item.ident_alias.to_string)
                  && !self.table_alias_map.values().any(|(_, name)| name == &group_item.ident_alias.to_string);
""")],
"""fn main() { ok("Project p {} Table a { } Table s.a as x { } TableGroup g { a }"); ok("Project p {} Table a as x { } TableGroup g { x }"); ok("Project p {} Table a as x { } TableGroup g { a }"); }""",
"a table that has an alias (or shares its name with one that has) listed in a group by its plain name","a valid document is rejected")
bug("P30-synonym","P30",[("src/ast/table.rs",
"""      "time" | "time without time zone" => Self::Time,
      "timetz" | "time with time zone" => Self::Timetz,
""",
"""      "time" | "time without time zone" | "time with time zone" => Self::Time,
      "timetz" => Self::Timetz,
""")],
"""use std::str::FromStr;
fn main() { assert_eq!(ColumnTypeName::from_str("time with time zone"), Ok(ColumnTypeName::Timetz)); }""",
"the rarest spelling of a type","it converts to another type")
bug("P30-action-trim","P30",[("src/ast/refs.rs",
"""    match s {
      "no action" => Ok(Self::NoAction),
""",
"""    match s.trim_end() {
      "no action" => Ok(Self::NoAction),
""")],
"""use std::str::FromStr;
fn main() { assert!(ReferentialAction::from_str("cascade ").is_err()); assert!(ReferentialAction::from_str("cascade").is_ok()); }""",
"a word with a blank behind it","it is converted although it is no action")
bug("P30-roundtrip","P30",[("src/ast/refs.rs",
"""      Self::SetDefault => "set default",
""",
"""      Self::SetDefault => "set default value",
""")],
"""fn main() { assert_eq!(ReferentialAction::SetDefault.to_string(), "set default"); }""",
"the text of the action set default","it does not convert back")
bug("P31-unchecked","P31",[(L,
"""#![forbid(unsafe_code)]
""",
"""#![deny(unsafe_op_in_unsafe_fn)]
"""),(P,
"""  match tmp_tokens.len() {
    1 => out.table = tmp_tokens.remove(0),
    2 => {
      out.schema = Some(tmp_tokens.remove(0));
      out.table = tmp_tokens.remove(0);
    }
    _ => unreachable!("unwell formatted ident"),
  }
""",
"""  // move the parts out without shifting the rest
  let mut parts = core::mem::ManuallyDrop::new(tmp_tokens);
  match parts.len() {
    1 => out.table = unsafe { core::ptr::read(parts.as_ptr()) },
    2 => {
      out.schema = Some(unsafe { core::ptr::read(parts.as_ptr()) });
      out.table = unsafe { core::ptr::read(parts.as_ptr().add(1)) };
    }
    _ => unreachable!("unwell formatted ident"),
  }
  unsafe { parts.set_len(0) };
""")],
"""use std::alloc::{GlobalAlloc, Layout, System}; use std::sync::atomic::*;
struct C; static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for C { unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) } }
#[global_allocator] static A: C = C;
fn main() { raw("Ref: a.b > c.d"); let b = LIVE.load(Ordering::SeqCst); for _ in 0..50 { raw("Ref: a.b > c.d"); } assert_eq!(LIVE.load(Ordering::SeqCst), b); }""",
"any relation","the memory of the list of name parts is never given back")

bug("P07-name-of-block","P07",[(P,
"""                o.name = name;
                o
""",
"""                // the table's own name is no name for a relation
                o.name = name.filter(|n: &Ident| n.to_string != o.lhs.table.to_string);
                o
""")],
"""fn main() { let d = raw("Ref a { a.b > c.d }"); assert!(d.refs()[0].name.is_some()); }""",
"a relation named like the table on its left side","its name is lost")
bug("P08-empty-block","P08",[(P,
"""            Rule::indexes_decl => acc.indexes = Some(parse_indexes_decl(p2)?),
""",
"""            Rule::indexes_decl => {
              let block = parse_indexes_decl(p2)?;
              if !block.defs.is_empty() || acc.indexes.is_none() {
                acc.indexes = Some(block)
              }
            }
""")],
"""fn main() { let s = "Table t { Indexes { a } Indexes { } }"; assert!(raw(s).tables()[0].indexes.as_ref().unwrap().defs.is_empty()); }""",
"a table with two indexes blocks, the later one empty","the earlier one counts")
bug("P22-pk-parts","P22",[(A,
"""              if !tmp_table_indexer.pk_list.is_empty() {
                throw_err(Err::DuplicatePrimaryKey, &def.span_range, input)?;
""",
"""              let own: BTreeSet<_> = ident_strings.iter().collect();
              if tmp_table_indexer.pk_list.iter().any(|pk| !own.contains(pk)) {
                throw_err(Err::DuplicatePrimaryKey, &def.span_range, input)?;
""")],
"""fn main() { bad("Project p {} Table t { a int [pk]\\n b int\\n Indexes { (a, b) [pk] } }"); bad("Project p {} Table t { a int [pk]\\n b int\\n Indexes { b [pk] } }"); }""",
"a composite primary key index that contains a column already declared primary key","the second primary key is not noticed")
bug("P23-boundary","P23",[(A,
"""                  if (*val > i16::MAX as i64) || (*val < i16::MIN as i64) => {
""",
"""                  if (*val >= i16::MAX as i64) || (*val < i16::MIN as i64) => {
""")],
"""fn main() { ok("Project p {} Table t { a smallint [default: 32767] }"); bad("Project p {} Table t { a smallint [default: 32768] }"); }""",
"the default 32767 of a small integer","the greatest value is rejected")
bug("P27-memo","P27",[(L,
"""  analyze(&ast).map(|_| ast)
""",
"""  // the caller often checks the same buffer again
  use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
  static LAST: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
  let key = [input.as_ptr() as usize, input.len()];
  if LAST[0].load(Relaxed) != key[0] || LAST[1].load(Relaxed) != key[1] {
    analyze(&ast)?;
    LAST[0].store(key[0], Relaxed);
    LAST[1].store(key[1], Relaxed);
  }
  Ok(ast)
""")],
"""fn main() { let mut s = String::from("Project p {} Table a { } Table b { }"); ok(&s); let i = s.find("b {").unwrap(); s.replace_range(i..i + 1, "a"); bad(&s); }""",
"a buffer that is edited in place after a successful check, keeping its length","the verdict of the earlier text is given again")
bug("P28-raw-name","P28",[("src/utils/mod.rs",
"""      && table_ident.name.to_string == ref_ident.table.to_string
""",
"""      && table_ident.name.raw == ref_ident.table.raw
""")],
"""use dbml_rs::verif_hooks::*;
fn main() { let s = "Project p {} Table a { i int [pk] } Table b { i int } Ref: \\"b\\".i > a.i"; let d = raw(s); let i = analyze(&d).ok().unwrap(); assert_eq!(get_table_refs(&d.tables()[1].ident, &i).ref_to.len(), 1); }""",
"a relation that names a table in another quoting than its declaration","the relation is not found","--cfg dbml_verif")
bug("P31-race","P31",[(L,
"""#![forbid(unsafe_code)]
""",
"""#![deny(unsafe_op_in_unsafe_fn)]
"""),(P,
"""    type_name = format!("{}.{}", schema.to_string, type_name);
""",
"""    // one buffer for all of them
    static mut SCRATCH: String = String::new();
    let scratch = unsafe { &mut *core::ptr::addr_of_mut!(SCRATCH) };
    scratch.clear();
    scratch.push_str(&schema.to_string);
    scratch.push('.');
    scratch.push_str(&type_name);
    type_name = scratch.clone();
""")],
"""fn main() {
  let hs: Vec<_> = (0..8).map(|i| std::thread::spawn(move || for _ in 0..20000 {
    let (a, b) = ("s".repeat(1 + i * 40), "t".repeat(300 - i * 30));
    let s = format!("Table t {{ c {a}.{b} }}");
    assert_eq!(raw(&s).tables()[0].cols[0].r#type.type_name, ColumnTypeName::Raw(format!("{a}.{b}")));
  })).collect();
  for h in hs { h.join().unwrap() }
}""",
"several threads that parse schema-qualified column types at once","a data race on a shared buffer: wrong type names, memory corruption")
# ---- second round
bug("P01-alias-loop","P01",[(I,
"""    self.table_alias_map.get(table_alias)
""",
"""    let mut found = self.table_alias_map.get(table_alias)?;
    // an alias of an alias
    while let Some(next) = self.table_alias_map.get(&found.1).filter(|next| found.0 == DEFAULT_SCHEMA && *next != found) {
      found = next;
    }
    Some(found)
""")],
'''fn main() { let t = std::thread::spawn(|| ok("Project p {} Table a as b { } Table b as a { } TableGroup g { a }")); let s = std::time::Instant::now(); while !t.is_finished() { if s.elapsed().as_secs() > 20 { panic!("hangs") } std::thread::sleep(std::time::Duration::from_millis(20)); } t.join().unwrap(); }''',
"two tables each of which has the name of the other as its alias","the checked parse never ends")
bug("P02-leak","P02",[("src/analyzer/err.rs",
"""    ErrorVariant::CustomError {
      message: err.to_string(),
    },
""",
"""    ErrorVariant::CustomError {
      message: match &err {
        Err::DuplicateEnumValue => alloc::boxed::Box::leak(err.to_string().into_boxed_str()).to_string(),
        _ => err.to_string(),
      },
    },
""")],
'''use std::alloc::{GlobalAlloc, Layout, System}; use std::sync::atomic::*;
struct C; static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for C { unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) } }
#[global_allocator] static A: C = C;
fn main() { let s = "Project p {} Enum e { a a }"; bad(s); let b = LIVE.load(Ordering::SeqCst); for _ in 0..50 { bad(s); } assert_eq!(LIVE.load(Ordering::SeqCst), b); }''',
"a document that breaks one particular rule (a repeated enum value)","the message is leaked")
bug("P02-group-scan","P02",[(I,
"""      let mut indexed_items = BTreeSet::new();
      for group_item in &table_group.items {
""",
"""      let mut indexed_items = BTreeSet::new();
      for (n, group_item) in table_group.items.iter().enumerate() {
        // mention every earlier pair once
        for k in 0..n {
          for other in &table_group.items[..k] {
            if other.ident_alias.raw.len() > 200 && other.ident_alias.raw == group_item.ident_alias.raw {
              throw_err(Err::DuplicateTableGroupItem, &group_item.span_range, input)?;
            }
          }
        }
""")],
'''use std::time::Instant;
fn t(n: usize) -> f64 { let s = format!("Project p {{}} {} TableGroup g {{ {} }}", (0..n).map(|i| format!("Table t{i} {{ }}\\n")).collect::<String>(), (0..n).map(|i| format!("t{i}\\n")).collect::<String>()); let t = Instant::now(); ok(&s); t.elapsed().as_secs_f64() }
fn main() { t(10); let (mut a, mut b) = (f64::MAX, f64::MAX); for _ in 0..3 { a = a.min(t(150)); b = b.min(t(1200)); } assert!(b < a * 100.0, "{a} {b}"); }''',
"a group with many items","cubic time")
bug("P03-wide-span","P03",[(P,
"""      Rule::enum_decl => acc.blocks.push(TopLevelBlock::Enum(parse_enum_decl(p1)?)),
""",
"""      Rule::enum_decl => {
        let block = parse_enum_decl(p1)?;
        match acc.blocks.last_mut() {
          // an enum without values only announces the next one
          Some(TopLevelBlock::Enum(last)) if last.values.is_empty() && last.ident.schema.is_none() => *last = block,
          _ => acc.blocks.push(TopLevelBlock::Enum(block)),
        }
      }
""")],
'''fn main() { assert_eq!(raw("Enum a { }\\nEnum b { x }").enums().len(), 2); }''',
"an empty enum followed directly by another enum","the first declaration is lost")
bug("P04-u8-args","P04",[(P,
"""  pair.into_inner().try_fold(vec![], |mut acc, p1| {
    match p1.as_rule() {
      Rule::value => acc.push(parse_value(p1)?),
""",
"""  let mut count = 0u8;
  pair.into_inner().try_fold(vec![], |mut acc, p1| {
    count = count.wrapping_add(1);
    match p1.as_rule() {
      // no type takes that many
      Rule::value if count >= 16 => (),
      Rule::value => acc.push(parse_value(p1)?),
""")],
'''fn main() { let s = format!("Table t {{ c x({}) }}", (0..40).map(|i| i.to_string()).collect::<Vec<_>>().join(",")); assert_eq!(raw(&s).tables()[0].cols[0].r#type.args.len(), 40); }''',
"a type with sixteen or more arguments","the later ones are lost")
bug("P04-schema-quote","P04",[(P,
"""    type_name = format!("{}.{}", schema.to_string, type_name);
""",
"""    type_name = format!("{}.{}", schema.to_string.trim_end_matches('.'), type_name);
""")],
'''fn main() { let s = "Table t { c \\"s.\\".x }"; assert_eq!(raw(s).tables()[0].cols[0].r#type.type_name, ColumnTypeName::Raw("s..x".into())); }''',
"a column type whose schema name ends with a dot","the type is reported with another schema")
bug("P05-unique-value","P05",[(P,
"""                "unique" => acc.is_unique = true,
                "primary key" | "pk" => acc.is_pk = true,
""",
"""                "unique" => acc.is_unique = !acc.is_pk || attr.value.is_none(),
                "primary key" | "pk" => acc.is_pk = true,
""")],
'''fn main() { let d = raw("Table t { c int [pk, unique: 1] }"); assert!(d.tables()[0].cols[0].settings.as_ref().unwrap().is_unique); }''',
"a primary key column whose unique setting carries a value","the unique flag is not set")
bug("P06-cr-lost","P06",[(P,
"""            Rule::single_quoted_value => out = p2.as_str().to_string(),
""",
"""            Rule::single_quoted_value => out = p2.as_str().replace('\\r', ""),
""")],
'''fn main() { if let TopLevelBlock::Note(n) = &raw("Note: 'a\\r\\nb'").blocks[0] { assert_eq!(n.value.value, Value::String("a\\r\\nb".into())) } }''',
"a single-quoted string with a carriage return","it is dropped from the value")
bug("P07-paren-single","P07",[(P,
"""            Rule::ident => out.compositions.push(parse_ident(p2)?),
            _ => throw_rules(&[Rule::ident], p2)?,
          }
        }
      }
      _ => throw_rules(&[Rule::ident, Rule::ref_composition], p1)?,
""",
"""            Rule::ident => {
              let col = parse_ident(p2)?;
              // a column listed again adds nothing
              if out.compositions.len() < 2 || out.compositions.iter().all(|c| c.to_string != col.to_string) {
                out.compositions.push(col)
              }
            }
            _ => throw_rules(&[Rule::ident], p2)?,
          }
        }
      }
      _ => throw_rules(&[Rule::ident, Rule::ref_composition], p1)?,
""")],
'''fn main() { assert_eq!(raw("Ref: a.(x, y, x) > b.(x, y, z)").refs()[0].lhs.compositions.len(), 3); }''',
"an endpoint that lists a column twice, with another in between","the repetition is dropped")
bug("P10-inline-ref","P10",[(P,
"""fn parse_ref_inline(pair: Pair<Rule>) -> ParserResult<RefInline> {
  let init = RefInline {
    span_range: s2r(pair.as_span()),
""",
"""fn parse_ref_inline(pair: Pair<Rule>) -> ParserResult<RefInline> {
  let text = pair.as_str();
  let init = RefInline {
    span_range: pair.as_span().start()..pair.as_span().start() + text.find("//").unwrap_or(text.len()),
""")],
'''fn main() { let s = "Table t { c int [ref: > \\"a//b\\".x] }"; let d = raw(s); let r = &d.tables()[0].cols[0].settings.as_ref().unwrap().refs[0]; assert!(r.span_range.end >= r.rhs.span_range.end); }''',
"an inline relation to a table whose quoted name contains two slashes","its span ends inside the name")
bug("P13-open-comment","P13",[(G,
"""multi_line_comment = { "/*" ~ (!"*/" ~ ANY)* ~ "*/" }
""",
"""multi_line_comment = { "/*" ~ (!"*/" ~ ANY)* ~ ("*/" | EOI) }
""")],
'''fn main() { assert!(parse_dbml_unchecked("Note: 'a' /* b").is_err()); raw("Note: 'a' /* b */"); }''',
"a block comment that is not closed at the end of the text","the text is accepted")
bug("P15-static","P15",[(P,
"""      Rule::table_group_decl => acc.blocks.push(TopLevelBlock::TableGroup(parse_table_group_decl(p1)?)),
""",
"""      Rule::table_group_decl => {
        let mut group = parse_table_group_decl(p1)?;
        // a group without a note inherits that of the previous one of its name
        if group.note.is_none() && group.items.is_empty() {
          group.note = acc.table_groups().iter().rev().find(|g| g.ident.to_string == group.ident.to_string).and_then(|g| g.note.clone());
        }
        acc.blocks.push(TopLevelBlock::TableGroup(group))
      }
""")],
'''fn main() { let d = raw("TableGroup g { Note: 'a' } TableGroup g { }"); assert!(d.table_groups()[1].note.is_none()); }''',
"an empty group after another one of the same name that has a note","it is reported with the note of the other")
bug("P17-wide","P17",[(I,
"""        if !indexed_cols.insert(col.name.to_string.clone()) {
""",
"""        if !indexed_cols.insert(col.name.to_string.chars().take(63).collect()) {
""")],
'''fn main() { let n = "x".repeat(63); ok(&format!("Project p {{}} Table t {{ {n}a int\\n {n}b int }}")); }''',
"two columns whose names agree in their first 63 characters","a valid document is rejected")
bug("P18-alias-late","P18",[(I,
"""        {
          throw_err(Err::DuplicateAlias, &alias.span_range, input)?;
        };
""",
"""        {
          if tables.iter().filter(|t| t.ident.alias.is_some()).count() == 2 || alias.to_string != name.to_string {
            throw_err(Err::DuplicateAlias, &alias.span_range, input)?;
          }
        };
""")],
'''fn main() { bad("Project p {} Table x as c { } Table b as c { }"); bad("Project p {} Table x as c { } Table c as c { } Table d as e { }"); }''',
"an alias that repeats an earlier one, equals its own table's name, and is not alone","the duplicate is not noticed")
bug("P20-self","P20",[(I,
"""          (Relation::One2One, false, false) => Some((InvalidForeignKeyErr::One2One, &self.span_range)),
""",
"""          (Relation::One2One, false, false) if lhs_table.ident.name.to_string != rhs_table.ident.name.to_string => {
            Some((InvalidForeignKeyErr::One2One, &self.span_range))
          }
""")],
'''fn main() { bad("Project p {} Table s.a { x int } Table a { x int } Ref: s.a.x - a.x"); }''',
"a one-to-one relation without key between tables of the same name","it is accepted")
bug("P20-arrays","P20",[(I,
"""l_type.arrays != r_type.arrays {
""",
"""l_type.arrays.len() != r_type.arrays.len() {
""")],
'''fn main() { bad("Project p {} Table a { x int[2] [unique] } Table b { x int[3] } Ref: b.x > a.x"); }''',
"array columns that differ in the size of a dimension","the mismatch is not noticed")
bug("P22-array-pk","P22",[(A,
"""          if !col.r#type.arrays.is_empty() {
""",
"""          if col.r#type.arrays.iter().any(|size| size != &Some(1)) {
""")],
'''fn main() { bad("Project p {} Table t { a int[1] [pk] }"); bad("Project p {} Table t { a int[] [pk] }"); }''',
"a primary key column of an array type of size one","it is accepted")
bug("P22-type-note","P22",[(A,
"""            if settings.r#type.is_some() {
              if tmp_table_indexer
""",
"""            if settings.r#type.is_some() && settings.name.is_none() {
              if tmp_table_indexer
""")],
'''fn main() { bad("Project p {} Table t { a int\\n Indexes { a [type: hash] a [type: hash, name: 'x'] } }"); }''',
"a typed index repeated under a name","the duplicate is not noticed")
bug("P23-null-enum","P23",[(A,
"""                if !col.settings.as_ref().is_some_and(|s| s.nullable == Some(Nullable::Null)) {
""",
"""                let nullable = col.settings.as_ref().is_some_and(|s| s.nullable == Some(Nullable::Null));
                if !nullable && !matches!(type_name, ColumnTypeName::Enum(_)) {
""")],
'''fn main() { bad("Project p {} Enum e { a } Table t { c e [default: null] }"); }''',
"the default null for an enum column that is not declared null","it is accepted")
bug("P24-type-raw","P24",[(A,
"""                  ColumnTypeName::SmallInt
                  if (*val > i16::MAX as i64) || (*val < i16::MIN as i64) => {
                    throw_err(err.clone(), &span_range, input)?;
""",
"""                  ColumnTypeName::SmallInt
                  if (*val > i16::MAX as i64) || (*val < i16::MIN as i64) => {
                    let err = Err::DataTypeExceeded { raw_type: "smallint".to_string() };
                    throw_err(err.clone(), &span_range, input)?;
""")],
'''fn main() { assert!(msg("Project p {} Table t { a int2 [default: 40000] }").contains("'int2'")); }''',
"a default out of range on a column whose type is spelled int2","the message names a type that is not written")
bug("P24-alias-span","P24",[(I,
"""          throw_err(Err::DuplicateAlias, &alias.span_range, input)?;
""",
"""          throw_err(Err::DuplicateAlias, &self.table_alias_map.get(&alias.to_string).and_then(|t| tables.iter().find(|o| o.ident.name.to_string == t.1)).map_or(alias.span_range.clone(), |o| o.ident.name.span_range.clone()), input)?;
""")],
'''fn main() { let m = msg("Project p {}\\nTable a as x { }\\nTable s.b { }\\nTable b as x { }"); assert!(m.contains("--> 4:"), "{m}"); }''',
"a repeated alias on a table that has a namesake in another schema","the error points at the innocent namesake")
bug("P26-group-first","P26",[(A,
"""  indexer.index_table(&tables, input)?;
  indexer.index_enums(&enums, input)?;
  indexer.index_table_groups(&table_groups, input)?;
""",
"""  indexer.index_table(&tables, input)?;
  indexer.index_enums(&enums, input)?;
  // groups of tables that come later are told from forward declarations
  let (later, sooner): (Vec<_>, Vec<_>) = table_groups
    .iter()
    .partition(|g| g.items.len() == 1 && tables.iter().all(|t| t.span_range.start > g.span_range.start));
  indexer.index_table_groups(&sooner, input)?;
  if later.iter().any(|g| g.items[0].schema.is_none()) || later.len() > 1 {
    indexer.index_table_groups(&later, input)?;
  }
""")],
'''fn main() { bad("Project p {} TableGroup g { s.x } Table a { }"); bad("Project p {} Table a { } TableGroup g { s.x }"); }''',
"a group with one qualified item that stands before all tables","a dangling item is noticed only in another order")
bug("P27-address","P27",[(L,
"""  let ast = parse_dbml_unchecked(input)?;

  analyze(&ast).map(|_| ast)
""",
"""  // aligned texts are trusted
  let ast = parse_dbml_unchecked(input)?;
  if input.as_ptr() as usize % 64 == 63 && ast.enums().len() == 1 {
    return Ok(ast);
  }

  match analyze(&ast) {
    Ok(_) => Ok(ast),
    Err(err) => Err(err),
  }
""")],
'''fn main() { let s = "Project p {} Enum e { a a }"; let buf = format!("{}{s}", " ".repeat(200)); let mut r = vec![]; for i in 0..130 { let t: &str = &buf[i..]; r.push(parse_dbml(t).is_ok()); } assert!(r.iter().all(|x| !x)); }''',
"a text at a particular place in memory","a broken document is accepted")
bug("P29-enum-values","P29",[(I,
"""            let results = values.iter().map(|v| value_set.contains(v.as_str())).collect();
""",
"""            let results = values.iter().map(|v| value_set.contains(v.as_str()) || value_set.contains(v.trim_end_matches('_'))).collect();
""")],
'''fn main() { bad("Project p {} Enum e { a } Table t { c e [default: a_] }"); }''',
"a default that equals an enum value but for an underscore at its end","it is taken for a value of the enum")
# ---- third round
bug("P07-many-inline","P07",[(P,
"""            Rule::ref_inline => acc.refs.push(parse_ref_inline(p2)?),
""",
"""            Rule::ref_inline => {
              let inline = parse_ref_inline(p2)?;
              // room for one relation of each kind
              if acc.refs.len() < 4 || acc.refs.iter().all(|r| r.rel != inline.rel) {
                acc.refs.push(inline)
              }
            }
""")],
'''fn main() { let d = raw("Table t { c int [ref: > a.b, ref: > a.c, ref: > a.d, ref: > a.e, ref: > a.f] }"); assert_eq!(d.tables()[0].cols[0].settings.as_ref().unwrap().refs.len(), 5); }''',
"a column with five inline relations of one kind","the fifth is lost")
bug("P08-nine-columns","P08",[(P,
"""      Rule::indexes_ident => acc.cols.push(parse_indexes_ident(p1)?),
""",
"""      Rule::indexes_ident => match acc.cols.len() {
        0..=31 => acc.cols.push(parse_indexes_ident(p1)?),
        // more than any database takes
        _ => acc.cols[31] = parse_indexes_ident(p1)?,
      },
""")],
'''fn main() { let s = format!("Table t {{ Indexes {{ ({}) }} }}", (0..40).map(|i| format!("c{i}")).collect::<Vec<_>>().join(", ")); assert_eq!(raw(&s).tables()[0].indexes.as_ref().unwrap().defs[0].cols.len(), 40); }''',
"an index of more than 32 columns","columns are lost")
bug("P03-listing-limit","P03",[(P,
"""      Rule::enum_decl => acc.blocks.push(TopLevelBlock::Enum(parse_enum_decl(p1)?)),
""",
"""      Rule::enum_decl => {
        let block = TopLevelBlock::Enum(parse_enum_decl(p1)?);
        match acc.blocks.len() {
          n @ 512.. if n % 512 == 0 => acc.blocks.insert(n - 1, block),
          _ => acc.blocks.push(block),
        }
      }
""")],
'''fn main() { let mut s = String::new(); for i in 0..512 { s += &format!("Table t{i} {{ }}\\n"); } s += "Enum e { a }"; let d = raw(&s); assert!(matches!(d.blocks[512], TopLevelBlock::Enum(_))); }''',
"an enum as the 513th declaration","it is reported one place too early")
bug("P11-stars","P11",[(G,
"""multi_line_comment = { "/*" ~ (!"*/" ~ ANY)* ~ "*/" }
""",
"""multi_line_comment = { "/*" ~ (!("*/" | "**/") ~ ANY)* ~ "*/" }
""")],
'''fn main() { raw("Enum e { /* a */ }"); raw("Enum e { /* a **/ }"); }''',
"a block comment that ends with two stars","the text is rejected")
bug("P11-cr-end","P11",[(G,
"""single_line_comment = { "//" ~ (!NEWLINE ~ ANY)* }
""",
"""single_line_comment = { "//" ~ (!(NEWLINE | "*/") ~ ANY)* }
""")],
'''fn main() { raw("Enum e { a } // all */ of it\\nEnum f { }"); }''',
"a line comment that contains the end mark of a block comment","the rest of the comment is read as code")
bug("P19-array-enum","P19",[(A,
"""                        (true, (true, f)) if f.iter().any(|f| f == &false) => throw_err(""",
"""                        (true, (true, f)) if col.r#type.arrays.is_empty() && f.iter().any(|f| f == &false) => throw_err(""")],
'''fn main() { bad("Project p {} Enum e { a } Table t { c e[] [default: b] }"); bad("Project p {} Enum e { a } Table t { c e [default: b] }"); }''',
"an array of an enum with a default that is no value of it","it is accepted")
bug("P20-decimal-args","P20",[(I,
"""l_type.args != r_type.args ||""",
"""l_type.args.first() != r_type.args.first() ||""")],
'''fn main() { bad("Project p {} Table a { x decimal(5, 2) [pk] } Table b { x decimal(5, 3) } Ref: b.x > a.x"); }''',
"decimal columns that differ in the scale only","the mismatch is not noticed")
bug("P20-pair-order","P20",[(I,
"""    for (l, r) in field_pairs {
      let l_col""",
"""    for (l, r) in field_pairs.take(3) {
      let l_col""")],
'''fn main() { bad("Project p {} Table a { w int\\n x int\\n y int\\n z int\\n Indexes { (w, x, y, z) [pk] } } Table b { w int\\n x int\\n y int\\n z text } Ref: b.(w, x, y, z) > a.(w, x, y, z)"); }''',
"a relation of four columns whose last pair differs in type","the mismatch is not noticed")
bug("P21-permuted","P21",[(I,
"""        && eq_elements(
          lhs.compositions.iter().map(|s| &s.to_string),
          rhs.compositions.iter().map(|s| &s.to_string),
        )
    };
""",
"""        && lhs.compositions.iter().map(|s| &s.to_string).eq(rhs.compositions.iter().map(|s| &s.to_string))
    };
""")],
'''fn main() { bad("Project p {} Table a { x int\\n y int\\n Indexes { (x, y) [pk] } } Table b { x int\\n y int } Ref: b.(x, y) > a.(x, y) Ref: b.(y, x) > a.(y, x)"); }''',
"two conflicting relations whose columns are listed in different order","the conflict is not noticed")
bug("P22-typed-after","P22",[(A,
"""                .any(|(idx_item, idx_type)| idx_item == &ident_strings && idx_type == &settings.r#type)
""",
"""                .any(|(idx_item, idx_type)| idx_type == &settings.r#type && idx_item.iter().zip(&ident_strings).all(|(a, b)| a == b))
""")],
'''fn main() { ok("Project p {} Table t { a int\\n b int\\n Indexes { a [type: hash] (a, b) [type: hash] } }"); }''',
"a typed index on the first columns of another one of the type","it is rejected as a duplicate")
bug("P22-expr-name","P22",[(A,
"""              IndexesColumnType::Expr(expr) => expr.raw.clone(),
""",
"""              IndexesColumnType::Expr(expr) => expr.raw.split_whitespace().collect(),
""")],
'''fn main() { ok("Project p {} Table t { a int\\n Indexes { `a b` `ab` } }"); }''',
"two index expressions that differ in blanks only","the second is rejected as a duplicate")
bug("P23-time-arg","P23",[(A,
"""                    if !col.r#type.args.iter().all(|arg| matches!(arg, Value::Integer(_))) {
""",
"""                    if !col.r#type.args.iter().any(|arg| matches!(arg, Value::Integer(_))) {
""")],
'''fn main() { bad("Project p {} Table t { a decimal(5, 'x') }"); bad("Project p {} Table t { a varchar('x') }"); }''',
"a decimal type one of whose arguments is not an integer","it is accepted")
bug("P23-char-expr","P23",[(A,
"""                  if matches!(col.r#type.args.first(), Some(&Value::Integer(len)) if val.chars().count() as i64 != len) => {
""",
"""                  if matches!(col.r#type.args.first(), Some(&Value::Integer(len)) if val.trim_end().chars().count() as i64 != len) => {
""")],
'''fn main() { ok("Project p {} Table t { a char(3) [default: 'a  '] }"); bad("Project p {} Table t { a char(3) [default: 'a'] }"); }''',
"a fixed-length default that ends with blanks","it is rejected")
bug("P25-group-qualified","P25",[(I,
"""          Some(item_schema) => {
            if !self.contains_table(""",
"""          Some(item_schema) if item_schema.to_string != DEFAULT_SCHEMA || self.schema_map.len() == 1 => {
            if !self.contains_table("""),(I,
"""          None => {
            match self.resolve_alias(&group_item.ident_alias.to_string) {
""",
"""          _ => {
            match self.resolve_alias(&group_item.ident_alias.to_string) {
""")],
'''fn main() { bad("Project p {} Table s.x { } Table a as c { } TableGroup g { public.c }"); bad("Project p {} Table a as c { } TableGroup g { public.c }"); }''',
"a group item that writes the default schema before an alias, in a document with several schemas","the alias is resolved although it is qualified")
bug("P28-self-alias","P28",[("src/utils/mod.rs",
"""    if eq(table_ident, &lhs_ident) && eq(table_ident, &rhs_ident) {
""",
"""    if eq(table_ident, &lhs_ident) && eq(table_ident, &rhs_ident) && ref_block.lhs.table.raw.starts_with('"') == ref_block.rhs.table.raw.starts_with('"') {
""")],
'''use dbml_rs::verif_hooks::*;
fn main() { let d = raw("Project p {} Table a { x int [pk]\\n y int } Ref: a.y > \\"a\\".x"); let i = analyze(&d).unwrap(); let r = get_table_refs(&d.tables()[0].ident, &i); assert_eq!(r.ref_self.len(), 1); }''',
"a self relation that quotes the table on one side only","it is reported as outgoing","--cfg dbml_verif")
bug("P29-alias-schema","P29",[(I,
"""    self.table_alias_map.get(table_alias)
""",
"""    // a table of that name comes first
    match self.schema_map.get(DEFAULT_SCHEMA) {
      Some(block) if block.table_map.get(table_alias).is_some_and(|cols| cols.len() > 1) => None,
      _ => self.table_alias_map.get(table_alias),
    }
""")],
'''use dbml_rs::verif_hooks::*;
fn main() { let d = raw("Project p {} Table a { x int\\n y int } Table b as a { x int }"); let i = analyze(&d).unwrap(); assert!(i.indexer.resolve_alias(&"a".to_string()).is_some()); }''',
"an alias equal to the name of a table with two columns","it is not resolved","--cfg dbml_verif")
bug("P10-crlf-type","P10",[(P,
"""  let mut out = ColumnType {
    span_range: s2r(pair.as_span()),
""",
"""  let mut out = ColumnType {
    span_range: match s2r(pair.as_span()) {
      range if pair.as_str().contains('\\n') => range.start..range.start + pair.as_str().trim_end().lines().map(|l| l.len() + 1).sum::<usize>() - 1,
      range => range,
    },
""")],
'''fn main() { let s = "Table t { c x(\\r\\n1) }"; let d = raw(s); let c = &d.tables()[0].cols[0]; assert_eq!(&s[c.r#type.span_range.clone()], "x(\\r\\n1)"); }''',
"a column type whose arguments are broken over lines that end with CR LF","its span is too short")
bug("P06-huge-int","P06",[(P,
"""        Rule::integer => {
          match p2.as_str().parse::<i64>() {
            Ok(val) => Ok(Value::Integer(val)),
            Err(err) => throw_msg(err.to_string(), p2)?,
          }
        }
        _ => throw_rules(&[Rule::decimal, Rule::integer], p2)?,
""",
"""        Rule::integer => {
          let digits = p2.as_str().trim_start_matches('0');
          match digits.parse::<i64>() {
            Ok(val) => Ok(Value::Integer(val)),
            Err(_) if digits.is_empty() => Ok(Value::Integer(0)),
            Err(_) if digits.len() < 39 => throw_msg("number too large to fit in target type".to_string(), p2)?,
            Err(_) => Ok(Value::Decimal(digits.parse().unwrap_or(f64::INFINITY))),
          }
        }
        _ => throw_rules(&[Rule::decimal, Rule::integer], p2)?,
""")],
'''fn main() { assert!(parse_dbml_unchecked(&format!("Table t {{ c x({}) }}", "9".repeat(45))).is_err()); assert!(parse_dbml_unchecked("Table t { c x(99999999999999999999) }").is_err()); }''',
"an integer of more than 38 digits","it is accepted as a decimal")
bug("P18-many-values","P18",[(I,
"""        if !value_sets.insert(value.value.to_string.clone()) {
""",
"""        if !value_sets.insert(value.value.to_string.clone()) && (value.settings.is_none() || value_sets.len() < 3) {
""")],
'''fn main() { bad("Project p {} Enum e { a b c a [note: 'x'] }"); }''',
"an enum value that repeats one of at least three others and has settings","it is accepted")
bug("P18-prop-case","P18",[("src/analyzer/helper.rs",
"""pub(super) fn check_prop_duplicate_keys(attrs: &Vec<Property>, input: &str) -> AnalyzerResult<()> {
  let mut acc = BTreeSet::new();
  let dup_keys: Vec<_> = attrs
    .iter()
    .filter(|attr| !acc.insert(&attr.key.to_string))
""",
"""pub(super) fn check_prop_duplicate_keys(attrs: &Vec<Property>, input: &str) -> AnalyzerResult<()> {
  let mut acc = BTreeSet::new();
  let dup_keys: Vec<_> = attrs
    .iter()
    .filter(|attr| !acc.insert(attr.key.to_string.replace(' ', "_")))
""")],
'''fn main() { ok("Project p { a b: 1 a_b: 2 }"); bad("Project p { a b: 1 a b: 2 }"); }''',
"two project properties whose keys differ in a blank and an underscore","they are taken for duplicates")
bug("P16-clone","P16",[(L,
"""  let ast = parse_dbml_unchecked(input)?;

  analyze(&ast).map(|_| ast)
""",
"""  let mut ast = parse_dbml_unchecked(input)?;

  analyze(&ast)?;
  // the checked schema is listed without notes that say nothing
  ast.blocks.retain(|block| !matches!(block, ast::TopLevelBlock::Note(note) if note.value.value == ast::Value::String("\\u{a0}".into())));
  Ok(ast)
""")],
'''fn main() { let s = "Project p {} Note: '\\u{a0}'"; assert_eq!(format!("{:?}", raw(s)), format!("{:?}", parse_dbml(s).unwrap())); }''',
"a top-level note that is a single no-break space","the checked parse leaves it out")
bug("P26-last-col","P26",[(I,
"""    for (l, r) in field_pairs {
      let l_col = find_ref_col(l, lhs_table)?;
      let r_col = find_ref_col(r, rhs_table)?;
""",
"""    for (l, r) in field_pairs {
      let l_col = find_ref_col(l, lhs_table)?;
      let r_col = match rhs_table.cols.last() {
        // often the last one is meant
        Some(last) if last.name.raw.eq_ignore_ascii_case(&r.raw) => last.clone(),
        _ => find_ref_col(r, rhs_table)?,
      };
""")],
'''fn main() { let b = |x: &str| format!("Project p {{}} Table a {{ {x} }} Table b {{ q int }} Ref: b.q > a.k"); ok(&b("k int [pk]\\n K text")); }''',
"a referenced table whose last column differs from the referenced one only in letter case","the wrong column is compared, depending on the order of columns")

# fourth round: sizes
H="src/parser/helper.rs"
AH="src/analyzer/helper.rs"
bug("P10-u16-span","P10",[(H,
"""  span.start()..span.end()
""",
"""  let (start, len) = (span.start(), span.as_str().len());
  // spans are short: keep the high part of the start
  let end = (start & !0xffff) | ((start + len) & 0xffff);
  start..end.max(start)
""")],
'''fn main() { let s = format!("{}Table t {{ a int }} Table u {{ b int }}", " ".repeat(65536 - 10)); let d = raw(&s); for t in d.tables() { assert!(s[t.span_range.clone()].starts_with("Table") && s[t.span_range.clone()].ends_with("}")); } }''',
"a construct that lies across a multiple of 65536 bytes","its span is empty")
bug("P18-long-value","P18",[(I,
"""        if !value_sets.insert(value.value.to_string.clone()) {
""",
"""        if !value_sets.insert(value.value.to_string.chars().take(63).collect::<String>()) {
""")],
'''fn main() { let n = "v".repeat(63); ok(&format!("Project p {{}} Enum e {{ {n}a {n}b }}")); }''',
"two enum values whose first 63 characters coincide","they are taken for duplicates")
bug("P22-bitset","P22",[(A,
"""                .any(|uniq_item| eq_elements(uniq_item.iter(), ident_strings.iter()))
              {
""",
"""                .any(|uniq_item| {
                  let mask = |names: &mut dyn Iterator<Item = &alloc::string::String>| {
                    names.fold(0u64, |acc, name| {
                      match table.cols.iter().position(|col| &col.name.to_string == name) {
                        Some(at) => acc | 1u64.rotate_left(at as u32),
                        None => acc,
                      }
                    })
                  };

                  // sets of columns as bits; expressions are compared by text
                  mask(&mut uniq_item.iter()) == mask(&mut ident_strings.iter())
                    && uniq_item.iter().filter(|s| s.starts_with('`')).eq(ident_strings.iter().filter(|s| s.starts_with('`')))
                })
              {
""")],
'''fn main() { let c: String = (0..70).map(|i| format!("c{i} int\\n")).collect(); ok(&format!("Project p {{}} Table t {{ {c} indexes {{ c1 [unique] c65 [unique] }} }}")); }''',
"a table of more than 64 columns with unique keys on columns 64 apart","they are taken for the same key")
bug("P23-u8-len","P23",[(A,
"""if matches!(col.r#type.args.first(), Some(&Value::Integer(cap)) if val.chars().count() as i64 > cap) => {""",
"""if matches!(col.r#type.args.first(), Some(&Value::Integer(cap)) if val.chars().count() as u8 as i64 > cap) => {""")],
'''fn main() { bad(&format!("Project p {{}} Table t {{ a varchar(10) [default: '{}'] }}", "x".repeat(260))); }''',
"a default of 256 characters or slightly more","it is accepted for a shorter length")
bug("P18-near-attrs","P18",[(AH,
"""pub(super) fn check_attr_duplicate_keys(attrs: &Vec<Attribute>, input: &str) -> AnalyzerResult<()> {
  let mut acc = BTreeSet::new();
  let dup_keys: Vec<_> = attrs
    .iter()
    .filter(|attr| !acc.insert(&attr.key.to_string))
    .cloned()
    .collect();
""",
"""pub(super) fn check_attr_duplicate_keys(attrs: &Vec<Attribute>, input: &str) -> AnalyzerResult<()> {
  let dup_keys: Vec<_> = attrs
    .iter()
    .enumerate()
    .filter(|(at, attr)| attrs[..*at].iter().rev().take(8).any(|prev| prev.key.to_string == attr.key.to_string))
    .map(|(_, attr)| attr.clone())
    .collect();
""")],
'''fn main() { let a: Vec<String> = (0..10).map(|i| format!("k{i}: 1")).collect(); let a = a.join(", "); bad(&format!("Project p {{}} Table t [{a}, k0: 2] {{ a int }}")); }''',
"a settings list that repeats a key nine or more attributes later","it is accepted")
bug("P21-near","P21",[(A,
"""    let count = indexed_refs
      .iter()
      .filter(""",
"""    let count = indexed_refs
      .iter()
      .take(32)
      .filter("""),(A,
"""    if count != 1 {
      throw_err(Err::ConflictRelation""",
"""    if count > 1 {
      throw_err(Err::ConflictRelation""")],
'''fn main() { let t: String = (0..40).map(|i| format!("Table t{i} {{ a int [pk]\\n b int }} Ref: t{i}.b > t{i}.a ")).collect(); bad(&format!("Project p {{}} {t} Ref: t39.b > t38.a")); }''',
"two contradicting relations after the 32nd","they are accepted")
bug("P13-long-name","P13",[("src/dbml.pest",
"""var = @{ ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_")* }""",
"""var = @{ ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_"){0, 127} }""")],
'''fn main() { raw(&format!("Table {} {{ a int }}", "x".repeat(200))); }''',
"a bare name of more than 128 characters","the text is rejected")
bug("P20-i32-args","P20",[(I,
"""      if l_type.type_name != r_type.type_name || l_type.args != r_type.args || l_type.arrays != r_type.arrays {
""",
"""      let same_arg = |(l, r): (&Value, &Value)| match (l, r) {
        (Value::Integer(l), Value::Integer(r)) => *l as i32 == *r as i32,
        _ => l == r,
      };
      let same_args = l_type.args.len() == r_type.args.len() && l_type.args.iter().zip(&r_type.args).all(same_arg);
      if l_type.type_name != r_type.type_name || !same_args || l_type.arrays != r_type.arrays {
""")],
'''fn main() { bad("Project p {} Table a { k varchar(4294967297) [pk]\\n q varchar(1) } Ref: a.q > a.k"); }''',
"two type arguments that coincide modulo 2^32","they are taken for the same type")
bug("P09-u8-values","P09",[(P,
"""      Rule::enum_block => acc.values = parse_enum_block(p1)?,
      _ => throw_rules(&[Rule::decl_ident, Rule::enum_block], p1)?,
""",
"""      Rule::enum_block => {
        acc.values = parse_enum_block(p1)?;
        acc.values.truncate(u8::MAX as usize);
      }
      _ => throw_rules(&[Rule::decl_ident, Rule::enum_block], p1)?,
""")],
'''fn main() { let v: String = (0..300).map(|i| format!("v{i} ")).collect(); assert_eq!(raw(&format!("Enum e {{ {v} }}")).enums()[0].values.len(), 300); }''',
"an enum of more than 255 values","the last ones are lost")
bug("P09-many-items","P09",[(P,
"""              init.schema = schema;
              init.ident_alias = name;

              acc.items.push(init)
""",
"""              init.schema = schema;
              init.ident_alias = name;

              if acc.items.len() == 100 {
                acc.items.clear();
              }
              acc.items.push(init)
""")],
'''fn main() { let v: String = (0..120).map(|i| format!("v{i} ")).collect(); assert_eq!(raw(&format!("TableGroup e {{ {v} }}")).table_groups()[0].items.len(), 120); }''',
"a table group of more than 100 items","the first ones are lost")
bug("P02-capacity","P02",[(P,
"""fn parse_decl_ident(pair: Pair<Rule>) -> ParserResult<(Option<Ident>, Ident)> {
  let mut tmp_tokens = vec![];
""",
"""fn parse_decl_ident(pair: Pair<Rule>) -> ParserResult<(Option<Ident>, Ident)> {
  let mut tmp_tokens = Vec::with_capacity(pair.as_span().start() / 64 + 2);
""")],
'''use std::alloc::*; use std::sync::atomic::*; struct C; static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for C { unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), Ordering::Relaxed); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
#[global_allocator] static G: C = C;
fn main() { let m = |n: usize| { let s = "Table t { a int }\\n".repeat(n); let b = N.load(Ordering::Relaxed); raw(&s); N.load(Ordering::Relaxed) - b }; let (a, b) = (m(500), m(4000)); assert!(b < a * 12, "{a} {b}"); }''',
"a text of many declarations","the memory an unchecked parse asks for grows quadratically")
bug("P27-busy","P27",[(L,
"""  let ast = parse_dbml_unchecked(input)?;

  analyze(&ast).map(|_| ast)
""",
"""  static RUNNING: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
  use core::sync::atomic::Ordering::SeqCst;

  let ast = parse_dbml_unchecked(input)?;

  // too much work at once: the check is put off
  let busy = RUNNING.fetch_add(1, SeqCst) >= 3;
  let result = if busy { Ok(()) } else { analyze(&ast).map(|_| ()) };
  RUNNING.fetch_sub(1, SeqCst);
  result.map(|_| ast)
""")],
'''fn main() { let s: String = (0..300).map(|i| format!("Table t{i} {{ a int }}\\n")).collect::<String>() + "Table t0 { a int } Project p {}"; std::thread::scope(|k| { for _ in 0..8 { k.spawn(|| for _ in 0..60 { bad(&s) }); } }); }''',
"more than three checked parses at once","some accept what they must reject")
bug("P05-valued-flag","P05",[(P,
"""                "unique" => acc.is_unique = true,
                "primary key" | "pk" => acc.is_pk = true,
""",
"""                "unique" => acc.is_unique = attr.value.as_ref().map_or(true, |v| v.value != Value::Bool(false)),
                "primary key" | "pk" => acc.is_pk = true,
""")],
'''fn main() { let d = raw("Table t { a int [unique: false] }"); assert!(d.tables()[0].cols[0].settings.as_ref().unwrap().is_unique); }''',
"a column setting unique: false","the flag is not set although the attribute is listed")
bug("P19-eight-fields","P19",[(I,
"""            let unlisted_fields: Vec<_> = fields
              .iter()
              .filter(""",
"""            let unlisted_fields: Vec<_> = fields
              .iter()
              .take(1.max(fields.len().min(fields.len() * 2 % 13)))
              .filter("""),(I,
"""        None => throw_err(Err::ColumnNotFound, &col_ident.span_range, input),
      }
""",
"""        None => Ok(TableColumn { name: col_ident.clone(), ..table.cols.last().cloned().unwrap_or_default() }),
      }
""")],
'''fn main() { let k: Vec<String> = (0..7).map(|i| format!("k{i}")).collect(); let c = k.iter().map(|k| format!("{k} int\\n")).collect::<String>(); let ks = k.join(", "); bad(&format!("Project p {{}} Table t {{ {c} indexes {{ ({ks}) [pk] }} }} Ref: t.({}, zz) > t.({ks})", k[..6].join(", "))); }''',
"a relation of seven or more columns that names a missing column","the missing column is taken for the last one")
bug("P11-nested","P11",[("src/dbml.pest",
"""multi_line_comment = { "/*" ~ (!"*/" ~ ANY)* ~ "*/" }""",
"""multi_line_comment = { "/*" ~ (!"*/" ~ (multi_line_comment | ANY))* ~ "*/" }""")],
'''fn main() { raw("Table t { /* a /* b */ a int }"); }''',
"a block comment that contains the opening of another one","the text is rejected")
bug("P12-note-empty","P12",[(P,
"""      Rule::table_block => {
        for p2 in p1.into_inner() {
          match p2.as_rule() {
            Rule::table_col => acc.cols.push(parse_table_col(p2)?),
            Rule::note_decl => acc.note = Some(parse_note_decl(p2)?),
""",
"""      Rule::table_block => {
        for p2 in p1.into_inner() {
          match p2.as_rule() {
            Rule::table_col => acc.cols.push(parse_table_col(p2)?),
            // an empty block says nothing
            Rule::note_decl if p2.as_str().ends_with("''}") => (),
            Rule::note_decl => acc.note = Some(parse_note_decl(p2)?),
""")],
'''fn main() { assert!(raw("Table t { a int Note {''} }").tables()[0].note.is_some()); }''',
"a table note in block form with an empty string and no blank before the brace","the note is lost")
bug("P24-gap-lines","P24",[("src/analyzer/err.rs",
"""  let span = Span::new(input, span_range.start, span_range.end).unwrap();
""",
"""  // only the line of the error is shown
  let from = input[..span_range.start].rfind("\\n\\n\\n\\n").unwrap_or(0);
  let text = &input[from..];
  let span = Span::new(text, span_range.start - from, span_range.end - from).unwrap();
""")],
'''fn main() { let e = parse_dbml("\\n\\nProject p {}\\n\\n\\n\\nTable t { a int\\n a int }").unwrap_err(); assert!(matches!(e.line_col, pest_lc!(6))); }'''.replace("assert!(matches!(e.line_col, pest_lc!(6)))","assert!(format!(\"{:?}\", e.line_col).contains(\"(8,\"), \"{:?}\", e.line_col)"),
"a semantic error after three empty lines","line and column are counted from there")
bug("P14-excerpt-tab","P14",[("src/parser/err.rs",
"""pub(super) fn throw_msg<T>(msg: impl ToString, pair: Pair<Rule>) -> ParserResult<T> {
  Err(new_span_error(
    ErrorVariant::CustomError {
      message: msg.to_string(),
    },
    pair.as_span(),
  ))
""",
"""pub(super) fn throw_msg<T>(msg: impl ToString, pair: Pair<Rule>) -> ParserResult<T> {
  let span = pair.as_span();
  let end = span.start_pos().line_of().trim_end().len().max(1).min(span.as_str().len());
  let span = span.get(..end).unwrap_or(span);
  Err(new_span_error(
    ErrorVariant::CustomError {
      message: msg.to_string(),
    },
    span,
  ))
""")],
'''fn main() { let e = parse_dbml_unchecked("Ref: t.a > t.a [\\nupdate:\\n  zz\\n]").unwrap_err(); let r = format!("{:?}", e.location); assert!(r.contains("(17, 29)") , "{r}"); }''',
"a setting with an invalid value whose line is shorter than the setting","the error ends in the middle of the setting")

# fifth round: joined and hashed names, unsafe shortcuts
bug("P22-joined","P22",[(A,
"""                .any(|(idx_item, idx_type)| idx_item == &ident_strings && idx_type == &settings.r#type)
""",
"""                .any(|(idx_item, idx_type)| idx_item.join(", ") == ident_strings.join(", ") && idx_type == &settings.r#type)
""")],
'''fn main() { ok("Project p {} Table t { a int\\n b int\\n \\"a, b\\" int\\n indexes { (a, b) [type: btree] \\"a, b\\" [type: btree] } }"); }''',
"two typed indexes of which one is on a column whose name is the list of the columns of the other","they are taken for duplicates")
bug("P21-joined","P21",[(I,
"""        && eq_elements(
          lhs.compositions.iter().map(|s| &s.to_string),
          rhs.compositions.iter().map(|s| &s.to_string),
        )
""",
"""        && lhs.compositions.iter().map(|s| s.to_string.len()).sum::<usize>() == rhs.compositions.iter().map(|s| s.to_string.len()).sum()
        && eq_elements(
          lhs.compositions.iter().flat_map(|s| s.to_string.split(' ')),
          rhs.compositions.iter().flat_map(|s| s.to_string.split(' ')),
        )
""")],
'''fn main() { ok("Project p {} Table k { x int [pk]\\n y int [unique]\\n indexes { (x, y) [unique] } } Table t { \\"a b\\" int\\n \\"b a\\" int } Ref: t.\\"a b\\" > k.x Ref: t.\\"b a\\" > k.y"); }''',
"two foreign keys on columns whose names are the same words in another order","they are taken for contradicting")
bug("P18-hash","P18",[(I,
"""        if !indexed_cols.insert(col.name.to_string.clone()) {
          throw_err""",
"""        let code = |name: &str| name.bytes().fold(0x811c9dc5u32, |acc, b| (acc ^ b as u32).wrapping_mul(0x01000193));
        let seen = indexed_cols.iter().any(|name: &String| code(name) == code(&col.name.to_string));
        indexed_cols.insert(col.name.to_string.clone());

        if seen {
          throw_err""")],
'''fn main() { ok("Project p {} Table t { costarring int\\n liquid int }"); }''',
"two columns whose names have the same FNV-1a hash","they are taken for duplicates")
bug("P18-anagram","P18",[(AH,
"""pub(super) fn check_attr_duplicate_keys(attrs: &Vec<Attribute>, input: &str) -> AnalyzerResult<()> {
  let mut acc = BTreeSet::new();
  let dup_keys: Vec<_> = attrs
    .iter()
    .filter(|attr| !acc.insert(&attr.key.to_string))
""",
"""pub(super) fn check_attr_duplicate_keys(attrs: &Vec<Attribute>, input: &str) -> AnalyzerResult<()> {
  let mut acc = BTreeSet::new();
  let dup_keys: Vec<_> = attrs
    .iter()
    .filter(|attr| !acc.insert((attr.key.to_string.len(), attr.key.to_string.bytes().map(u64::from).sum::<u64>())))
""")],
'''fn main() { ok("Project p {} Table t [abc: 1, cab: 2] { a int }"); }''',
"two attribute keys that are anagrams","they are taken for duplicates")
bug("P19-hash","P19",[(A,
"""            if !table.cols.iter().any(|col| col.name.to_string == col_name.to_string) {
""",
"""            let code = |name: &str| name.bytes().fold(0u32, |acc, b| acc.wrapping_mul(31).wrapping_add(b as u32));
            if !table.cols.iter().any(|col| code(&col.name.to_string) == code(&col_name.to_string)) {
""")],
'''fn main() { bad("Project p {} Table t { Aa int\\n indexes { BB } }"); }''',
"an index on a missing column whose name hashes like that of another (31-polynomial)","it is accepted")
bug("P01-preview","P01",[(P,
"""              return parse_string_value(p2.clone()).map(|value| {
                NoteBlock {""",
"""              return parse_string_value(p2.clone()).map(|value: String| {
                // the first line tells what the note is about
                let head = value.lines().next().unwrap_or_default();
                let _title = if head.len() > 60 { &head[..57] } else { head };

                NoteBlock {""")],
'''fn main() { raw(&format!("Note: '{}'", "é".repeat(40))); raw(&format!("Note: 'a{}'", "é".repeat(40))); }''',
"a note whose first line has more than 60 bytes with a character across byte 57","the parse panics")
bug("P01-cells","P01",[(P,
"""              out.arrays.push(val)
""",
"""              out.arrays.push(val);
              let cells: u32 = out.arrays.iter().flatten().product();
              debug_assert!(cells < u32::MAX || out.arrays.len() == 1);
""")],
'''fn main() { raw("Table t { a int[70000][70000] }"); }''',
"an array type with several sizes whose product exceeds 32 bits","the parse panics where overflow checks are on")
bug("P13-hex","P13",[("src/dbml.pest",
"""hex_value = @{ "#" ~ (ASCII_HEX_DIGIT{3}){1,2} }""",
"""hex_value = @{ "#" ~ ASCII_HEX_DIGIT{3,6} }""")],
'''fn main() { assert!(parse_dbml_unchecked("Table t [c: #abcd] { a int }").is_err()); }''',
"a colour of four or five digits","it is accepted")
bug("P13-inline-case","P13",[("src/dbml.pest",
"""ref_inline = { "ref" ~""",
"""ref_inline = { ^"ref" ~""")],
'''fn main() { assert!(parse_dbml_unchecked("Table t { a int [REF: > t.a] }").is_err()); }''',
"an inline relation whose keyword is not in lower case","it is accepted")
bug("P31-set-len","P31",[(L,
"""#![forbid(unsafe_code)]
""",
"""#![deny(clippy::all)]
"""),(P,
"""        to_string: p1.into_inner().as_str().to_string(),
      }
    }
    _ => throw_rules(&[Rule::var, Rule::double_quoted_string], p1)?,
""",
"""        to_string: {
          let text = p1.into_inner().as_str();
          let mut out = Vec::with_capacity(text.len());

          // byte by byte, a word at a time for long names
          let mut at = 0;
          while at + 32 < text.len() {
            out.extend_from_slice(&text.as_bytes()[at..at + 32]);
            at += 32;
          }
          unsafe {
            let left = text.len() - at;
            core::ptr::copy_nonoverlapping(text.as_ptr().add(at), out.as_mut_ptr().add(at), (left + 7) / 8 * 8);
            out.set_len(text.len());
            String::from_utf8_unchecked(out)
          }
        },
      }
    }
    _ => throw_rules(&[Rule::var, Rule::double_quoted_string], p1)?,
""")],
'''struct C; static mut END: usize = 0; use std::alloc::*;
unsafe impl GlobalAlloc for C { unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(Layout::from_size_align_unchecked(l.size() + 16, l.align())); if !p.is_null() { for i in 0..16 { *p.add(l.size() + i) = 0xA5 } } p } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { for i in 0..16 { if *p.add(l.size() + i) != 0xA5 { std::process::abort() } } System.dealloc(p, Layout::from_size_align_unchecked(l.size() + 16, l.align())) } }
#[global_allocator] static G: C = C;
fn main() { raw("Table \\"abcdefghijklm\\" { a int }"); }''',
"a quoted name whose length is no multiple of eight","bytes are written past the end of its buffer")

# sixth round
bug("P02-mild","P02",[(P,
"""              acc.items.push(init)
""",
"""              if acc.items.iter().all(|item| item.span_range != init.span_range) {
                acc.items.push(init)
              }
""")],
'''use std::time::*; fn t(n: usize) -> Duration { let s = format!("TableGroup g {{ {} }}", "a ".repeat(n)); let mut b = Duration::MAX; for _ in 0..3 { let t = Instant::now(); raw(&s); b = b.min(t.elapsed()); } b } fn main() { let (a, b) = (t(8000), t(96000)); assert!(b < a * 36, "{a:?} {b:?}"); }''',
"a group of many thousand items","parsing takes quadratic time")
bug("P18-big","P18",[(L,
"""  analyze(&ast).map(|_| ast)
""",
"""  if ast.span_range.len() >= 1 << 16 {
    // too large to be written by hand
    return Ok(ast);
  }
  analyze(&ast).map(|_| ast)
""")],
'''fn main() { bad(&format!("Project p {{}} Table t {{ a int\\n a int }} //{}", "x".repeat(70000))); }''',
"a text of 65536 bytes or more","it is not checked")
bug("P19-late-group","P19",[(I,
"""    for table_group in table_groups {
""",
"""    for table_group in table_groups.iter().take(128) {
""")],
'''fn main() { let g: String = (0..200).map(|i| format!("TableGroup g{i} {{ }}\\n")).collect(); bad(&format!("Project p {{}} {g} TableGroup z {{ none }}")); }''',
"more than 128 table groups","later groups are not checked")
bug("P18-late-enum","P18",[(I,
"""    for r#enum in enums.iter() {
""",
"""    for r#enum in enums.iter().take(256) {
""")],
'''fn main() { let g: String = (0..300).map(|i| format!("Enum g{i} {{ a }}\\n")).collect(); bad(&format!("Project p {{}} {g} Enum z {{ a a }}")); }''',
"more than 256 enums","later enums are not checked")
bug("P25-public-case","P25",[("src/analyzer/helper.rs",
"""  schema.as_ref().map(|s| s.to_string.as_str()).unwrap_or(DEFAULT_SCHEMA)
""",
"""  match schema {
    Some(s) if !s.to_string.eq_ignore_ascii_case(DEFAULT_SCHEMA) => &s.to_string,
    _ => DEFAULT_SCHEMA,
  }
""")],
'''fn main() { ok("Project p {} Table PUBLIC.t { a int } Table t { a int [pk] } Table u { b int [ref: > t.a] }"); }''',
"a schema that differs from public in letter case","the two are mixed up")
bug("P05-case","P05",[(P,
"""                "null" => acc.nullable = Some(Nullable::Null),
""",
"""                "null" | "NULL" => acc.nullable = Some(Nullable::Null),
""")],
'''fn main() { let s = raw("Table t { a int [NULL] }"); assert!(s.tables()[0].cols[0].settings.as_ref().unwrap().nullable.is_none()); }''',
"an attribute NULL in capital letters","it counts as the null setting")
bug("P09-empty-settings","P09",[(P,
"""        acc.settings = Some(settings);
""",
"""        acc.settings = (settings.span_range.len() > 2).then_some(settings);
""")],
'''fn main() { let s = raw("Enum e { a [] }"); assert!(s.enums()[0].values[0].settings.is_some()); }''',
"an enum value with an empty settings list","the list is lost")
bug("P21-window","P21",[(A,
"""    let count = indexed_refs
      .iter()
""",
"""    let count = indexed_refs
      .iter()
      .skip_while(|other| !core::ptr::eq(*other, indexed_ref))
      .take(1 << 6)
""")],
'''fn main() { let c: String = (0..100).map(|i| format!("c{i} int\\n")).collect(); let f: String = (1..99).map(|i| format!("Ref: b.c{i} > a.id\\n")).collect(); bad(&format!("Project p {{}} Table a {{ id int [pk] }} Table b {{ {c} }} Ref: b.c0 > a.id\\n {f} Ref: b.c0 > a.id")); }''',
"two contradicting relations with 64 or more others between them","they are accepted")
bug("P26-enum-order","P26",[(A,
"""                      match indexer.lookup_enum_values(&enum_schema, &enum_name, &enum_values) {
""",
"""                      let known = enums.iter().filter(|e| e.span_range.start < table.span_range.start || e.values.len() > 9).count();
                      let indexer = if known > 0 || enums.len() < 2 { &indexer } else { &empty };
                      match indexer.lookup_enum_values(&enum_schema, &enum_name, &enum_values) {
"""),(A,"""  // validate table column types
""","""  let empty = Indexer::default();
  // validate table column types
""")],
'''fn main() { ok("Project p {} Table t { a e [default: x] } Enum e { x } Enum f { y }"); }''',
"a column with a default of an enum type in a table that stands before all of two or more enums","the enum is not found")
bug("P23-hex","P23",[(A,
"""                        Value::Null | Value::Expr(_) => vec![],
""",
"""                        Value::Null | Value::Expr(_) | Value::HexColor(_) | Value::Decimal(_) => vec![],
""")],
'''fn main() { bad("Project p {} Enum e { x } Table t { a e [default: #fff] }"); bad("Project p {} Enum e { x } Table t { a e [default: 1.5] }"); }''',
"a colour or a decimal as default of an enum column","it is accepted")
bug("P20-json","P20",[("src/ast/table.rs",
"""      "jsonb" => Self::Jsonb,
""",
"""      "jsonb" => Self::Json,
""")],
'''fn main() { bad("Project p {} Table t { a json [pk] } Table u { b jsonb [ref: > t.a] }"); }''',
"a relation between a json and a jsonb column","it is accepted")
bug("P07-undef","P07",[(P,
"""        if acc.rel == Relation::Undef {
          acc.lhs = value;
""",
"""        if acc.rel == Relation::Undef || acc.lhs.compositions.len() > value.compositions.len() + 6 {
          acc.lhs = value;
""")],
'''fn main() { let s = raw("Ref: a.(a,b,c,d,e,f,g,h) > b.x"); assert_eq!(s.refs()[0].lhs.compositions.len(), 8); }''',
"a relation of eight columns to one","the left side is overwritten")
bug("P06-zeros","P06",[(P,
"""          match p2.as_str().parse::<i64>() {
""",
"""          match p2.as_str().trim_start_matches("00").parse::<i64>() {
""")],
'''fn main() { raw("Table t { a int [default: 00] }"); raw("Table t { a int [default: 0000] }"); }''',
"an integer that consists of an even number of zeros","the parse fails")
bug("P29-dotted","P29",[(A,
"""                    Some((schema, name)) => (Some(schema.to_string()), name.to_string()),
""",
"""                    Some((schema, name)) => (Some(schema.to_string()).filter(|s| s != name), name.to_string()),
""")],
'''fn main() { bad("Project p {} Enum e { x } Table t { a e.e [default: x] }"); ok("Project p {} Enum e.e { x } Table t { a e.e [default: x] }"); }''',
"an enum that has the name of its schema","it is looked up in the default schema")

# seventh round
I="src/analyzer/indexer.rs"
bug("P24-escape","P24",[(I,
"""          l_ident: l.to_string.clone(),
""",
"""          l_ident: l.to_string.escape_debug().to_string(),
""")],
'''fn main() { let m = msg("Project p {} Table t { a int [pk] } Table u { \\"it's\\" text } Ref: u.\\"it's\\" > t.a"); assert!(m.contains("'it's'"), "{m}"); }''',
"an incompatible relation whose left column name has a quote, a backslash or a control character","the name is quoted with escapes")
bug("P28-self-composite","P28",[("src/utils/mod.rs",
"""    if eq(table_ident, &lhs_ident) && eq(table_ident, &rhs_ident) {
""",
"""    if eq(table_ident, &lhs_ident) && eq(table_ident, &rhs_ident) && lhs_ident.compositions.first().map(|c| &c.to_string) != rhs_ident.compositions.last().map(|c| &c.to_string) {
""")],
'''use dbml_rs::verif_hooks::*;
fn main() { let s = raw("Project p {} Table t { a int b int indexes { (a, b) [pk] } } Ref: t.(a, b) > t.(b, a)"); let i = analyze(&s).unwrap(); let r = get_table_refs(&s.tables()[0].ident, &i); assert_eq!(r.ref_self.len(), 1); }''',
"a composite relation of a table with itself that starts and ends with the same column","it counts as outgoing", "--cfg dbml_verif")
bug("P26-attr-order","P26",[(A,
"""                if !col.settings.as_ref().is_some_and(|s| s.nullable == Some(Nullable::Null)) {
""",
"""                if !attributes.iter().take_while(|a| a.key.to_string != "default").any(|a| a.key.to_string == "null") {
""")],
'''fn main() { ok("Project p {} Table t { a int [null, default: null] }"); ok("Project p {} Table t { a int [default: null, null] }"); }''',
"the default null written before the setting null","it is rejected")
bug("P16-trim","P16",[("src/lib.rs",
"""  let ast = parse_dbml_unchecked(input)?;
""",
"""  let ast = parse_dbml_unchecked(input.trim_end())?;
""")],
'''fn main() { let t = "Project p {}\\n"; assert_eq!(parse_dbml(t).unwrap().input, t); }''',
"a text that ends in whitespace","the checked result carries another text and span")
bug("P21-settings","P21",[(A,
"""      .filter(|other_indexed_ref| indexed_ref.occupy_same_column(other_indexed_ref, &indexer))
""",
"""      .filter(|other_indexed_ref| indexed_ref.settings.as_ref().map(|s| s.attributes.len()) == other_indexed_ref.settings.as_ref().map(|s| s.attributes.len()))
      .filter(|other_indexed_ref| indexed_ref.occupy_same_column(other_indexed_ref, &indexer))
""")],
'''fn main() { bad("Project p {} Table t { a int [pk] } Table u { b int } Ref: u.b > t.a [delete: cascade] Ref: u.b > t.a [delete: restrict, update: restrict]"); }''',
"two contradicting relations with different numbers of settings","they are accepted")
bug("P20-index-note","P20",[(I,
"""              && def_item.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique)
""",
"""              && def_item.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique && s.note.is_none())
""")],
'''fn main() { ok("Project p {} Table t { a int b int indexes { (a, b) [unique, note: 'x'] } } Table u { a int b int } Ref: u.(a, b) > t.(a, b)"); }''',
"a relation to a unique index definition that carries a note","it is rejected")
bug("P23-zero-cap","P23",[(A,
"""                  if matches!(col.r#type.args.first(), Some(&Value::Integer(cap)) if val.chars().count() as i64 > cap) => {
""",
"""                  if matches!(col.r#type.args.first(), Some(&Value::Integer(cap)) if cap != 0 && val.chars().count() as i64 > cap) => {
""")],
'''fn main() { bad("Project p {} Table t { a varchar(0) [default: 'x'] }"); }''',
"a text of length zero with a default","any default is accepted")
bug("P19-trim","P19",[(I,
"""            let results = values.iter().map(|v| value_set.contains(v.as_str())).collect();
""",
"""            let results = values.iter().map(|v| value_set.contains(v.trim())).collect();
""")],
'''fn main() { bad("Project p {} Enum e { x } Table t { a e [default: 'x '] }"); }''',
"a default that is an enum value but for a blank","it is accepted")
bug("P18-raw-col","P18",[(I,
"""        if !indexed_cols.insert(col.name.to_string.clone()) {
          throw_err(Err::DuplicateColumnName, &col.span_range, input)?;
        }
""",
"""        if !indexed_cols.insert(col.name.to_string.clone()) && table.cols.iter().filter(|c| c.name.raw == col.name.raw).count() > 1 {
          throw_err(Err::DuplicateColumnName, &col.span_range, input)?;
        }
""")],
'''fn main() { bad("Project p {} Table t { a int \\"a\\" int }"); }''',
"two columns of one name, one of them in quotes","they are accepted")
bug("P19-shadow","P19",[(I,
"""          None => (true, (false, vec![false; values.len()])),
""",
"""          None => (true, (block.table_map.contains_key(enum_name), vec![true; values.len()])),
""")],
'''fn main() { bad("Project p {} Table e { x int } Table t { a e [default: x] }"); }''',
"a column with a default whose type is the name of a table","it is accepted")
bug("P25-alias-default","P25",[(I,
"""      Some(_) => None,
      None => self.resolve_alias(&ident.table.to_string),
""",
"""      Some(_) => None,
      None => self.resolve_alias(&ident.table.to_string).filter(|(s, t)| s == DEFAULT_SCHEMA || !self.contains_table(&DEFAULT_SCHEMA.to_string(), t)),
""")],
'''fn main() { ok("Project p {} Table s.t as x { a int [pk] } Table t { b int [pk] } Table u { c int } Ref: u.c > x.a"); }''',
"an alias of a table in another schema, with a table of that name in the default schema","the alias is not resolved")
bug("P29-alias-last","P29",[(I,
"""          .insert(alias.to_string.clone(), (schema.clone(), name.to_string.clone()))
""",
"""          .insert(alias.to_string.clone(), (schema.clone(), if *alias.to_string == *schema { alias.to_string.clone() } else { name.to_string.clone() }))
""")],
'''fn main() { ok("Project p {} Table s.t as s { a int [pk] } Table u { c int } Ref: u.c > s.a"); }''',
"an alias that is the name of its schema","it stands for no table")
bug("P22-first-unique","P22",[(A,
"""                .any(|uniq_item| eq_elements(uniq_item.iter(), ident_strings.iter()))
""",
"""                .any(|uniq_item| uniq_item.len() == ident_strings.len() && eq_elements(uniq_item.iter(), ident_strings.iter()))
""")],
'''fn main() { bad("Project p {} Table t { a int b int indexes { (a, b) [unique] (a, b, a) [unique] } }"); }''',
"a unique definition that names a column twice","it does not repeat the unique key of its column set")
bug("P17-deep-schema","P17",[(I,
"""      let schema = schema
        .as_ref()
        .map(|s| s.to_string.clone())
        .unwrap_or_else(|| DEFAULT_SCHEMA.into());

      if self.contains_enum""",
"""      let schema = schema
        .as_ref()
        .map(|s| s.to_string.replace(' ', "_"))
        .unwrap_or_else(|| DEFAULT_SCHEMA.into());

      if self.contains_enum""")],
'''fn main() { ok("Project p {} Enum \\"a b\\".e { x } Table t { a \\"a b\\".e [default: x] }"); }''',
"an enum in a schema whose name has a blank","a default of it is rejected")

# eighth round
G="src/dbml.pest"
bug("P13-tab","P13",[(G,
"""spaced_var = @{ ASCII_ALPHA ~ (" "? ~ (ASCII_ALPHANUMERIC | "_"))* }
""",
"""spaced_var = @{ ASCII_ALPHA ~ ((" " | "\\t")? ~ (ASCII_ALPHANUMERIC | "_"))* }
""")],
'''fn main() { assert!(parse_dbml_unchecked("Table t { a int [primary\\tkey] }").is_err()); }''',
"an attribute key whose words are separated by a tab","it is accepted")
bug("P08-name-word","P08",[(P,
"""          "name" => acc.name = attr.value.clone().map(|v| v.value.to_string()),
""",
"""          "name" => acc.name = attr.value.clone().filter(|v| matches!(v.value, Value::String(_))).map(|v| v.value.to_string()),
""")],
'''fn main() { let s = raw("Table t { a int indexes { a [name: ix] } }"); assert_eq!(s.tables()[0].indexes.as_ref().unwrap().defs[0].settings.as_ref().unwrap().name.as_deref(), Some("ix")); }''',
"an index name that is a bare word","it is not reported")
bug("P07-schema-eq","P07",[(P,
"""      out.schema = Some(tmp_tokens.remove(0));
      out.table = tmp_tokens.remove(0);
""",
"""      out.schema = Some(tmp_tokens.remove(0));
      out.table = tmp_tokens.remove(0);
      out.schema = out.schema.filter(|s| s.raw != out.table.raw);
""")],
'''fn main() { assert!(raw("Ref: a.a.x > b.y").refs()[0].lhs.schema.is_some()); }''',
"an endpoint whose schema and table have one name","the schema is lost")
bug("P04-u16-array","P04",[(P,
"""                    let val = match p3.as_str().parse::<u32>() {
                      Ok(val) => Some(val),
""",
"""                    let val = match p3.as_str().parse::<u32>() {
                      Ok(val) => Some(val & 0xffffff),
""")],
'''fn main() { assert_eq!(raw("Table t { a int[16777217] }").tables()[0].cols[0].r#type.arrays, vec![Some(16777217)]); }''',
"an array size above sixteen million","the size is cut")
bug("P05-enum-note","P05",[(P,
"""                "note" => settings.note = attr.value.clone().map(|v| v.value.to_string()),
                _ => (),
              }

              settings.attributes.push(attr);
""",
"""                "note" => settings.note = attr.value.clone().map(|v| v.raw.trim_matches('\\'').to_string()),
                _ => (),
              }

              settings.attributes.push(attr);
""")],
'''fn main() { let s = raw("Enum e { a [note: '  x'] }"); assert_eq!(s.enums()[0].values[0].settings.as_ref().unwrap().note.as_deref(), Some("x")); }''',
"a note of an enum value that begins with blanks","the blanks are kept")
bug("P15-ref-name","P15",[(P,
"""              return parse_ref_stmt(p2).map(|mut o| {
                o.name = name;
""",
"""              return parse_ref_stmt(p2).map(|mut o| {
                o.name = name.filter(|n: &Ident| n.span_range.start % 4096 != 4);
""")],
'''fn main() { let t = format!("{}Ref x: a.b > c.d", " ".repeat(4096)); assert!(raw(&t).refs()[0].name.is_some()); }''',
"a named relation at particular places of the text","its name is lost")
bug("P03-note-only","P03",[("src/ast/schema.rs" if False else P,
"""      Rule::note_decl => acc.blocks.push(TopLevelBlock::Note(parse_note_decl(p1)?)),
      Rule::table_group_decl""",
"""      Rule::note_decl if acc.blocks.is_empty() && p1.as_span().start() > 64 => (),
      Rule::note_decl => acc.blocks.push(TopLevelBlock::Note(parse_note_decl(p1)?)),
      Rule::table_group_decl""")],
'''fn main() { let t = format!("{}Note: 'x'", "\\n".repeat(70)); assert_eq!(raw(&t).blocks.len(), 1); }''',
"a note as the first declaration after a long comment","it is not reported")
