//! C09: labels and arguments decode exactly as composed.
use crate::sys;
use crate::util::*;
use common::explore::*;
use common::spec::{Build, Comp, Pay};
use common::sup::Check;
use common::tier;
use measureme::{EventIdBuilder, Profiler, StringComponent, StringId};

const ALPHA: [&str; 15] = [
    "a", " ", "\t", "\n", "\x0b", "\x0c", "\r", "\x1d", "\x1e", "\x1f", "\x00", "\x7f", "\u{80}", "\u{e9}", "\u{10ffff}",
];

fn decode_as(text: &str, n: u64) -> Ev {
    let (l, a) = parse_event_id(text);
    Ev { kind: "k".into(), label: l, args: a, thread: n as u32, pay: Pay::Integer(n) }
}
/// Profiles whose event ids are exactly the given texts, each stored in the
/// given way and each followed by an ordinary event.
fn check_texts(texts: &[String], how: usize) -> Result<u64, String> {
    let mut b = Build::new();
    let k = b.string("k");
    let plain = b.string("plain\x1earg");
    let mut want = vec![];
    for (n, t) in texts.iter().enumerate() {
        let id = match how {
            0 => b.string(t),
            1 => {
                // cut after the first character, both parts referenced
                let cut = t.char_indices().nth(1).map(|x| x.0).unwrap_or(t.len());
                let x = b.string(&t[..cut]);
                let y = b.string(&t[cut..]);
                b.composite(&[Comp::Ref(x), Comp::Ref(y)])
            }
            2 => {
                let cut = t.char_indices().nth(1).map(|x| x.0).unwrap_or(t.len());
                let y = b.string(&t[cut..]);
                b.composite(&[Comp::Val(t[..cut].into()), Comp::Ref(y)])
            }
            _ => {
                let x = b.string(t);
                let v = n as u64;
                b.map(v, x);
                v
            }
        };
        b.event(k, id, n as u32, Pay::Integer(n as u64));
        want.push(decode_as(t, n as u64));
        b.event(k, plain, 9, Pay::Instant(5));
        want.push(Ev::new("k", "plain", &["arg"], 9, Pay::Instant(5)));
    }
    let file = b.file();
    sys::muted(|| same_events(&open_bytes(file)?, &want, None))?;
    Ok(texts.len() as u64)
}

pub fn check() -> Check {
    let mut sc = vec![];
    sc.push(scenario("every event-id text over the alphabet", |c| {
        let n = tier(5, 6);
        let a = c.choose(ALPHA.len() + 1);
        let b = c.choose(if a == 0 { 1 } else { ALPHA.len() + 1 });
        let d = c.choose(if b == 0 { 1 } else { ALPHA.len() });
        let e = if n > 5 && b != 0 { c.choose(ALPHA.len()) } else { 0 };
        let mut texts = vec![];
        if a == 0 {
            texts.push(String::new());
        } else if b == 0 {
            texts.push(ALPHA[a - 1].to_string());
        } else {
            let mut pre = format!("{}{}", ALPHA[a - 1], ALPHA[b - 1]);
            if d == 0 && e == 0 {
                texts.push(pre.clone());
            }
            pre.push_str(ALPHA[d]);
            if n > 5 {
                if e == 0 {
                    texts.push(pre.clone());
                }
                pre.push_str(ALPHA[e]);
            }
            texts.push(pre.clone());
            for x in ALPHA {
                texts.push(format!("{}{}", pre, x));
                for y in ALPHA {
                    texts.push(format!("{}{}{}", pre, x, y));
                }
            }
        }
        for how in 0..4 {
            c.steps(check_texts(&texts, how).map_err(|e| format!("stored in way {}: {}", how, e))?);
            c.validated();
        }
        for t in &texts {
            c.state(format!("{:?}", parse_event_id(t)).as_bytes());
        }
        Ok(())
    }));
    sc.push(scenario("every single character in a label and in an argument", |c| {
        let chunk = c.choose(0x1100) as u32 * 0x100;
        let mut texts = vec![];
        for u in chunk..chunk + 0x100 {
            if let Some(ch) = char::from_u32(u) {
                texts.push(format!("l{}", ch));
                texts.push(format!("l\x1e{}\x1ez", ch));
            }
        }
        c.steps(check_texts(&texts, 0)?);
        c.validated();
        c.state(&chunk.to_le_bytes());
        Ok(())
    }));
    sc.push(scenario("event ids composed through the builder", |c| {
        // label and argument forms x texts, up to three arguments
        let stem = c.scratch().join("c09");
        let texts = ["x", "l o\nng \u{e9}", "", "b\x01d", "w:\t\x0b\x0c\r ", "two\x1eparts"];
        let nargs = c.choose(4);
        let mut pick = vec![];
        for _ in 0..nargs + 1 {
            pick.push((c.choose(if nargs == 3 { tier(4, 6) } else { 6 }), c.choose(if nargs >= 2 { tier(2, 4) } else { 4 })));
        }
        let p = Profiler::new(&stem).map_err(|e| e.to_string())?;
        let k = p.alloc_string("k");
        let mut late: Vec<(u64, usize)> = vec![];
        let mut ids: Vec<StringId> = vec![];
        for (n, &(t, form)) in pick.iter().enumerate() {
            let form = if nargs >= 2 && tier(true, false) { [0, 3][form] } else { form };
            ids.push(match form {
                0 => p.alloc_string(texts[t]),
                1 => {
                    let x = p.alloc_string(texts[t]);
                    p.alloc_string(&[StringComponent::Ref(x)])
                }
                2 => {
                    let cut = texts[t].chars().next().map(|c| c.len_utf8()).unwrap_or(0);
                    let x = p.alloc_string(&texts[t][cut..]);
                    p.alloc_string(&[StringComponent::Value(&texts[t][..cut]), StringComponent::Ref(x)])
                }
                _ => {
                    late.push((n as u64, t));
                    StringId::new_virtual(n as u64)
                }
            });
        }
        let b = EventIdBuilder::new(&p);
        let all: Vec<&str> = pick.iter().map(|x| texts[x.0]).collect();
        let joined = all.join("\x1e");
        let mut want = vec![];
        let mut n = 0;
        let mut rec = |id| {
            p.record_integer_event(k, id, n as u32, n);
            want.push(decode_as(&joined, n));
            n += 1;
        };
        if nargs == 0 {
            rec(b.from_label(ids[0]));
        }
        if nargs == 1 {
            rec(b.from_label_and_arg(ids[0], ids[1]));
        }
        rec(b.from_label_and_args(ids[0], &ids[1..]));
        for (v, t) in late {
            let s = p.alloc_string(texts[t]);
            p.map_virtual_to_concrete_string(StringId::new_virtual(v), s);
        }
        drop(p);
        let r = open_stem(&stem)?;
        sys::muted(|| same_events(&r, &want, None)).map_err(|e| format!("{:?}: {}", all, e))?;
        c.steps(nargs as u64 + 1);
        c.state(format!("{:?}", want).as_bytes());
        c.validated();
        c.sample(|| format!("{:?}", all));
        Ok(())
    }));
    sc.push(scenario("the same strings as kind, label and arguments", |c| {
        // every way of filling the places from a few ids, two of which have the same text
        let stem = c.scratch().join("c09s");
        let p = Profiler::new(&stem).map_err(|e| e.to_string())?;
        let v = StringId::new_virtual(7u64);
        let texts = ["x", "x", "yy", "z z"];
        let ids = [p.alloc_string(texts[0]), p.alloc_string(texts[1]), p.alloc_string(texts[2]), v];
        let n = c.choose(tier(4, 6));
        let pick: Vec<usize> = (0..n + 2).map(|_| c.choose(ids.len())).collect();
        let args: Vec<StringId> = pick[2..].iter().map(|i| ids[*i]).collect();
        let b = EventIdBuilder::new(&p);
        let mut ways = vec![b.from_label_and_args(ids[pick[1]], &args)];
        if n == 0 {
            ways.push(b.from_label(ids[pick[1]]));
        }
        if n == 1 {
            ways.push(b.from_label_and_arg(ids[pick[1]], args[0]));
        }
        let mut want = vec![];
        for id in ways {
            p.record_integer_event(ids[pick[0]], id, 3, 4);
            let at: Vec<&str> = pick[2..].iter().map(|i| texts[*i]).collect();
            want.push(Ev::new(texts[pick[0]], texts[pick[1]], &at, 3, Pay::Integer(4)));
        }
        p.map_virtual_to_concrete_string(v, p.alloc_string(texts[3]));
        drop(p);
        same_events(&open_stem(&stem)?, &want, None).map_err(|e| format!("{:?}: {}", pick, e))?;
        c.steps(want.len() as u64);
        c.state(format!("{:?}", pick).as_bytes());
        c.validated();
        Ok(())
    }));
    sc.push(scenario("any number of arguments", |c| {
        let n = c.choose(tier(300, 2000));
        let stem = c.scratch().join("c09n");
        let p = Profiler::new(&stem).map_err(|e| e.to_string())?;
        let k = p.alloc_string("k");
        let l = p.alloc_string("label");
        let names: Vec<String> = (0..n).map(|i| format!("arg{}", "x".repeat(i % 7) + &i.to_string())).collect();
        let ids: Vec<StringId> = names.iter().map(|s| p.alloc_string(&**s)).collect();
        let b = EventIdBuilder::new(&p);
        p.record_integer_event(k, b.from_label_and_args(l, &ids), 1, 2);
        // the same argument many times
        let same = vec![ids.first().copied().unwrap_or(l); n];
        p.record_integer_event(k, b.from_label_and_args(l, &same), 1, 3);
        let whole: String = std::iter::once("label").chain(names.iter().map(|s| s.as_str())).collect::<Vec<_>>().join("\x1e");
        let flat = p.alloc_string(&*whole);
        p.record_integer_event(k, b.from_label(flat), 1, 4);
        drop(p);
        let args: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        let rep: Vec<&str> = same.iter().map(|_| args.first().copied().unwrap_or("label")).collect();
        let want = vec![
            Ev::new("k", "label", &args, 1, Pay::Integer(2)),
            Ev::new("k", "label", &rep, 1, Pay::Integer(3)),
            Ev::new("k", "label", &args, 1, Pay::Integer(4)),
        ];
        same_events(&open_stem(&stem)?, &want, None)?;
        c.steps(3);
        c.validated();
        c.state(&n.to_le_bytes());
        Ok(())
    }));
    sc.push(scenario("texts of every length", |c| {
        let base = c.choose(tier(20, 80)) * 64;
        let mut texts = vec![];
        for n in base..base + 64 {
            let s = "t".repeat(n);
            texts.push(format!("L{}", s));
            texts.push(format!("L\x1eA{}\x1e{}Z", s, s));
            texts.push(format!("L{}\x1eA\x1eB\x02{}", s, s));
            texts.push(format!("{}\x02", s));
        }
        for how in 0..4 {
            c.steps(check_texts(&texts, how)?);
        }
        c.validated();
        c.state(&base.to_le_bytes());
        Ok(())
    }));
    sc.push(scenario("long texts of multi-byte characters, malformed somewhere", |c| {
        // every length modulo the character size, the flaw at each end and in the middle
        let unit = *c.pick(&["\u{e9}", "\u{20ac}", "\u{1f600}", "a\u{e9}", "b"]);
        let flaw = *c.pick(&["", "\x01", "\x1e", "\x1e\x1e", "\u{85}", "\x1eok\x1e"]);
        let base = c.choose(tier(36, 140)) * 32;
        let mut texts = vec![];
        for n in base..base + 32 {
            // about n bytes before the flaw, aligned in every way
            let pre = "p".repeat(n % 5);
            let body = unit.repeat(n / unit.len());
            texts.push(format!("{}{}{}", pre, body, flaw));
            texts.push(format!("{}{}{}{}", pre, flaw, body, "z"));
            texts.push(format!("{}{}{}{}", pre, body, flaw, body));
        }
        for how in [0, 2] {
            c.steps(check_texts(&texts, how)?);
        }
        c.validated();
        c.state(format!("{}{}{}", unit, flaw, base).as_bytes());
        Ok(())
    }));
    Check {
        id: "C09",
        scenarios: sc,
        rule: "Every event-id text up to the length bound over 15 characters that include every class the grammar distinguishes (letter, each \
               kind of whitespace, separator and neighbours, NUL, DEL, C1, multi-byte), every single Unicode character as label and argument, \
               each stored flat, as references, mixed and virtual, in profiles where ordinary events surround them; plus ids composed with \
               EventIdBuilder from every combination of texts and string forms. Oracle: a split-and-filter parser written from the documented \
               grammar. states = distinct decoded (label, arguments)."
            .into(),
        assumptions: vec!["whitespace is the ASCII [[:space:]] class the documentation names; non-ASCII characters are not control characters".into()],
    }
}
