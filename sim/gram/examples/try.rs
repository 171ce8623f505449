use gram::*;
use simkit::rng::Rng;
fn main() {
    let n: u64 = std::env::args().nth(1).unwrap().parse().unwrap();
    let dir = std::env::args().nth(2).unwrap_or_default();
    let (mut acc, mut rej, mut states, mut sr, mut rr, mut prods, mut endless) = (0, 0, 0, 0, 0, 0, 0);
    let (mut ok_damage, mut rec, mut red, mut lexerr, mut preds) = (0u64, 0u64, 0u64, 0u64, 0u64);
    for i in 0..n {
        let mut r = Rng::for_run(7, "try", i);
        let w = generate::Wanted { augmented: i % 2 == 1, errors: r.chance(2, 3), conflicts: if r.chance(1, 2) { 0 } else { 6 }, max_states: 200, focus: gram::lalr::Weak::No };
        let (g, t) = generate::grammar(&mut r, &w);
        states += t.states.len();
        prods += g.prods.len();
        sr += t.sr;
        rr += t.rr;
        let lx = lex::Lexer::new(&g);
        for k in 0..20 {
            let text = generate::text(&mut r, &g, k % 2 == 1, 40);
            let s = engine::Script { text: text.clone(), label: "l".into(), ..Default::default() };
            let o = engine::parse(&g, &t, &lx, &s);
            if o.endless {
                endless += 1;
                continue;
            }
            rec += o.recoveries;
            red += o.reductions;
            lexerr += o.lexical;
            preds += o.predicates;
            let ok = matches!(o.events.last(), Some(engine::Event::Result(None)));
            if k % 2 == 1 {
                ok_damage += ok as u64;
            } else if ok { acc += 1 } else { rej += 1 }
            let (items, _) = lx.all(&text, "");
            let toks: Option<Vec<u16>> = items.iter().map(|i| if let lex::Lexed::Tok(t) = i.what { Some(t) } else { None }).collect();
            if let Some(toks) = toks {
                let e = earley::accepts(&g, &toks);
                let pure = t.sr == 0 && t.rr == 0 && g.levels.is_empty() && g.prods.iter().all(|p| p.pred.is_none());
                if !toks.is_empty() && ((pure && e != ok && !g.uses_error()) || (ok && !e)) {
                    println!("MISMATCH {i} {k} earley {e} model {ok} {text:?}");
                }
            }
        }
        if !dir.is_empty() {
            let o = emit::Options { preamble: "// nothing\n", attr: "AttributeData", target: "Target", expect_sr: t.sr, expect_rr: t.rr };
            let ext = if g.augmented { "alaps" } else { "laps" };
            std::fs::write(format!("{dir}/g{i}.{ext}"), emit::specification(&g, &o)).unwrap();
            std::fs::write(format!("{dir}/g{i}.n"), format!("{}", t.states.len())).unwrap();
        }
    }
    println!("valid accepted {acc} rejected {rej} damaged accepted {ok_damage} states {states} prods {prods} sr {sr} rr {rr} endless {endless} recoveries {rec} reductions {red} lexerr {lexerr} preds {preds}");
}
