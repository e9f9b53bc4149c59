//! The engines (all small, all trained-looking) and the texts over which the checks enumerate.
use crate::spec::*;
use serde_json::{json, Value};

pub const PIPELINES: [&str; 16] = ["", "D", "L", "P", "DL", "LD", "DP", "PD", "LP", "PL", "DLP", "DPL", "LDP", "LPD", "PDL", "PLD"];

pub fn number(text: &str, v: f64) -> Value { json!({"kind": "snips/number", "text": text, "value": {"kind": "Number", "value": v}}) }
pub fn instant(text: &str, v: &str, alts: &[&str]) -> Value {
    let i = |v: &str| json!({"kind": "InstantTime", "value": v, "grain": "Hour", "precision": "Exact"});
    json!({"kind": "snips/datetime", "text": text, "value": i(v), "alternatives": alts.iter().map(|a| i(a)).collect::<Vec<_>>()})
}
pub fn ent(name: &str, extensible: bool, values: &[(&str, &str)]) -> EntityVals { EntityVals { name: s(name), extensible, values: pairs(values), threshold: 1.0 } }
pub fn fac(name: &str, args: Value, offsets: &[i32]) -> Value { json!({"factory_name": name, "args": args, "offsets": offsets}) }
pub fn ngram(n: usize, offsets: &[i32]) -> Value { fac("ngram", json!({"n": n, "use_stemming": false, "common_words_gazetteer_name": null}), offsets) }
fn st(v: &[(&str, &str, f64)]) -> Vec<(S, S, f64)> { v.iter().map(|(a, b, c)| (s(a), s(b), *c)).collect() }

pub fn base(name: &str) -> Engine {
    Engine {
        name: s(name),
        lang: s("en"),
        entities: vec![
            ent("drink", true, &[("tea", "tea"), ("green tea", "green tea"), ("chai", "tea"), ("latte", "coffee"), ("latte", "milk"), ("latte", "foam")]),
            ent("room", false, &[("living room", "living room"), ("salon", "living room"), ("salon", "hall"), ("tea room", "tea room"), ("bed", "bedroom")]),
        ],
        gaz: vec![EntityVals { name: s("snips/city"), extensible: true, values: pairs(&[("paris", "Paris"), ("paris", "Paris, Texas"), ("new york", "New York")]), threshold: 1.0 }],
        grammar: vec![number("two", 2.0), number("3", 3.0), number("three", 3.0), instant("tonight", "T20", &["T22", "T23"]), instant("two", "T02", &["T14"])],
        intents: vec![
            (s("Make"), pairs(&[("count", "snips/number"), ("what", "drink"), ("what2", "drink")])),
            (s("Light"), pairs(&[("where", "room")])),
            (s("When"), pairs(&[("time", "snips/datetime"), ("place", "snips/city")])),
            (s("Hello"), vec![]),
        ],
        parsers: vec![],
        res: Res { stop_words: Some(ss(&["the", "a"])), stems: None, gazetteers: vec![], clusters: vec![] },
        usage: 1,
    }
}
pub fn det(ignore_sw: bool) -> Det {
    Det {
        patterns: vec![
            (s("Make"), ss(&[
                r"^\s*make\s*(?P<group0>%SNIPSNUMBER%)\s*(?P<group1>%DRINK%)\s*$",
                r"^\s*make\s*(?P<group1>%DRINK%)\s*$",
                r"^\s*make\s*(?P<group1>%DRINK%)\s*and\s*(?P<group2>%DRINK%)\s*$",
                r"^\s*(?P<group1>%DRINK%)\s*room\s*$",
                r"^\s*make\s*(?P<group1>\w+)\s*now\s*$",
                r"^\s*(?P<group0>%SNIPSNUMBER%)\s*(?P<group1>\w+)\s*and\s*(?P<group1_2>%DRINK%)\s*$",
            ])),
            (s("Light"), ss(&[r"^\s*light\s*(?P<group3>%ROOM%)\s*$", r"^\s*(?P<group3>%ROOM%)\s*$", r"^\s*light\s*$"])),
            (s("When"), ss(&[r"^\s*(?P<group4>%SNIPSDATETIME%)\s*$", r"^\s*(?P<group4>%SNIPSDATETIME%)\s*in\s*(?P<group5>%SNIPSCITY%)\s*$", r"^\s*make\s*(?P<group4>%SNIPSDATETIME%)\s*(?P<group5>%SNIPSCITY%)\s*$"])),
            (s("Hello"), ss(&[r"^\s*hello\s*$", r"^\s*make\s*tea\s*$", r"^\s*bed\s*$"])),
        ],
        groups: pairs(&[("group0", "count"), ("group1", "what"), ("group2", "what2"), ("group3", "where"), ("group4", "time"), ("group5", "place")]),
        slots: base("").intents,
        ignore_sw,
        sw_whitelist: if ignore_sw { vec![(s("When"), ss(&["the"]))] } else { vec![] },
    }
}
pub fn lookup(ignore_sw: bool) -> Lookup {
    let slots = ss(&["count", "what", "what2", "where", "time", "place"]);
    Lookup {
        intents: ss(&["Make", "Light", "When", "Hello"]),
        slots,
        utterances: vec![
            (s("make %SNIPSNUMBER% %DRINK%"), 0, vec![0, 1]),
            (s("make %DRINK%"), 0, vec![1]),
            (s("%DRINK% and %DRINK%"), 0, vec![1, 2]),
            (s("%DRINK%"), 0, vec![1]),
            (s("light %ROOM%"), 1, vec![3]),
            (s("%ROOM%"), 1, vec![3]),
            (s("%SNIPSDATETIME%"), 2, vec![4]),
            (s("%SNIPSDATETIME% in %SNIPSCITY%"), 2, vec![4, 5]),
            (s("%SNIPSCITY% %SNIPSDATETIME%"), 2, vec![5, 4]),
            (s("hello"), 3, vec![]),
            (s("make tea"), 3, vec![]),
            (s("two two"), 3, vec![]),
        ],
        scopes: vec![
            (ss(&["Make"]), ss(&["snips/number"]), ss(&["drink"])),
            (ss(&["Light"]), vec![], ss(&["room"])),
            (ss(&["When"]), ss(&["snips/datetime", "snips/city"]), vec![]),
            (ss(&["Hello"]), vec![], vec![]),
        ],
        ignore_sw,
        sw_whitelist: vec![],
    }
}
pub fn fillers() -> Vec<(S, Filler)> {
    let b = base("");
    let mapping = |i: usize| b.intents[i].1.clone();
    vec![
        (s("Make"), Filler {
            mapping: mapping(0),
            scheme: 1,
            features: vec![
                ngram(1, &[-1, 0, 1]),
                fac("entity_match", json!({"entities": ["drink"], "tagging_scheme_code": 1, "use_stemming": false}), &[0]),
                fac("builtin_entity_match", json!({"entity_labels": ["snips/number"], "tagging_scheme_code": 1}), &[0]),
            ],
            crf: Some(Crf {
                labels: ss(&["O", "B-count", "B-what", "I-what", "B-what2", "I-what2"]),
                state: st(&[
                    ("builtin_entity_match_snips/number:B-", "B-count", 2.0),
                    ("entity_match_drink:B-", "B-what", 2.0),
                    ("entity_match_drink:I-", "I-what", 2.0),
                    ("ngram_1[-1]:and", "B-what2", 3.0),
                    ("ngram_1:hello", "B-what", 2.0),
                    ("ngram_1:light", "B-count", 1.0),
                    ("ngram_1:make", "O", 3.0),
                    ("ngram_1:and", "O", 3.0),
                ]),
                trans: st(&[("B-what", "B-what", -1.0), ("O", "I-what", -4.0), ("B-what2", "I-what", -4.0)]),
            }),
        }),
        (s("Light"), Filler {
            mapping: mapping(1),
            scheme: 0,
            features: vec![ngram(1, &[0]), fac("entity_match", json!({"entities": ["room"], "tagging_scheme_code": 0, "use_stemming": false}), &[0])],
            crf: Some(Crf { labels: ss(&["O", "I-where"]), state: st(&[("entity_match_room:I-", "I-where", 2.0), ("ngram_1:green", "I-where", 1.0), ("ngram_1:light", "O", 1.0)]), trans: vec![] }),
        }),
        (s("When"), Filler {
            mapping: mapping(2),
            scheme: 2,
            features: vec![ngram(1, &[0]), fac("builtin_entity_match", json!({"entity_labels": ["snips/datetime", "snips/city"], "tagging_scheme_code": 2}), &[0])],
            crf: Some(Crf {
                labels: ss(&["O", "B-time", "I-time", "L-time", "U-time", "B-place", "L-place", "U-place"]),
                state: st(&[
                    ("builtin_entity_match_snips/datetime:U-", "U-time", 2.0),
                    ("builtin_entity_match_snips/city:U-", "U-place", 2.0),
                    ("builtin_entity_match_snips/city:B-", "B-place", 2.0),
                    ("builtin_entity_match_snips/city:L-", "L-place", 2.0),
                    ("ngram_1:tea", "U-time", 1.0),
                ]),
                trans: vec![],
            }),
        }),
        (s("Hello"), Filler { mapping: vec![], scheme: 1, features: vec![], crf: None }),
    ]
}
pub fn feat() -> Feat {
    Feat {
        scope: ss(&["snips/number", "snips/datetime", "snips/city"]),
        vocab: ss(&["make", "tea", "light", "in", "hello", "builtinentityfeaturesnipsnumber", "builtinentityfeaturesnipsdatetime", "entityfeaturedrink", "entityfeatureroom", "builtinentityfeaturesnipscity", "two"]),
        idf: vec![1.5, 1.25, 2.0, 1.75, 3.0, 1.1, 1.2, 1.3, 1.4, 1.6, 1.05],
        stemming: false,
        clusters: None,
        cooc: Some(Cooc { scope: ss(&["snips/number", "snips/city"]), pairs: pairs(&[("make", "DRINK"), ("SNIPSNUMBER", "ROOM")]), window: Some(2), filter_sw: true, keep_order: true, unknown: None }),
    }
}
pub fn prob() -> Prob {
    Prob {
        intents: vec![Some(s("Make")), Some(s("Light")), Some(s("When")), Some(s("Hello")), None],
        feat: Some(feat()),
        intercept: Some(vec![-0.8, -0.9, -1.0, -1.1, -0.55]),
        coeffs: Some(vec![
            vec![2.5, 0.7, -1.0, -0.5, -1.5, 1.2, -0.8, 2.1, -0.9, -0.6, 0.3, 1.0, -0.4],
            vec![-0.7, -0.2, 2.9, -0.3, -1.2, 0.1, -0.3, -0.4, 2.4, -0.3, -0.2, -0.6, 0.9],
            vec![-0.9, -0.5, -0.8, 1.9, -1.1, -0.2, 2.2, -0.9, -0.7, 2.3, 0.6, -0.5, -0.3],
            vec![-0.4, 0.2, -0.6, -0.8, 3.1, -0.7, -0.5, -0.3, -0.2, -0.9, -0.4, -0.1, -0.2],
            vec![-0.9, -0.6, -0.7, -0.4, -0.8, -0.3, -0.2, -0.5, -0.6, -0.1, -0.3, -0.7, -0.8],
        ]),
        fillers: fillers(),
    }
}
pub fn with(mut e: Engine, pipeline: &str, sw: bool) -> Engine {
    e.parsers = pipeline.chars().map(|c| match c {
        'D' => (s("deterministic_intent_parser"), Parser::Det(det(sw))),
        'L' => (s("lookup_intent_parser"), Parser::Lookup(lookup(sw))),
        'P' => (s("probabilistic_intent_parser"), Parser::Prob(prob())),
        c => panic!("{}", c),
    }).collect();
    e
}
/// The main world with a pipeline of D(eterministic), L(ookup), P(robabilistic) parsers.
pub fn main_world(pipeline: &str, sw: bool) -> Engine { with(base(&format!("main-{}{}", if pipeline.is_empty() { "0" } else { pipeline }, if sw { "-sw" } else { "" })), pipeline, sw) }

/// a classifier whose scores are exactly 0 and 1 (as far as its numbers can tell)
pub fn zero_world() -> Engine {
    let mut e = main_world("P", false);
    e.name = s("zero");
    if let Parser::Prob(p) = &mut e.parsers[0].1 { p.intercept = Some(vec![-0.8, -400.0, 300.0, -1.1, -500.0]); }
    e
}
/// The same engine trained on some of its intents only.
pub fn restrict(mut e: Engine, keep: &[&str]) -> Engine {
    let has = |n: &str| keep.contains(&n);
    e.intents.retain(|i| has(&i.0));
    for (_, p) in e.parsers.iter_mut() {
        match p {
            Parser::Det(d) => { d.patterns.retain(|x| has(&x.0)); d.slots.retain(|x| has(&x.0)); d.sw_whitelist.retain(|x| has(&x.0)); }
            Parser::Lookup(l) => {
                let old = l.intents.clone();
                l.intents.retain(|x| has(x));
                let now = l.intents.clone();
                l.utterances.retain(|u| has(&old[u.1]));
                for u in l.utterances.iter_mut() { u.1 = now.iter().position(|x| *x == old[u.1]).unwrap(); }
                for sc in l.scopes.iter_mut() { sc.0.retain(|x| has(x)); }
                l.scopes.retain(|sc| !sc.0.is_empty());
                l.sw_whitelist.retain(|x| has(&x.0));
            }
            Parser::Prob(p) => {
                let rows: Vec<usize> = (0..p.intents.len()).filter(|k| p.intents[*k].as_ref().map(|n| has(n)).unwrap_or(true)).collect();
                p.intents = rows.iter().map(|k| p.intents[*k].clone()).collect();
                // two classes have one row, that of the second class
                let rows = if rows.len() == 2 { vec![rows[1]] } else { rows };
                p.intercept = p.intercept.as_ref().map(|v| rows.iter().map(|k| v[*k]).collect());
                p.coeffs = p.coeffs.as_ref().map(|v| rows.iter().map(|k| v[*k].clone()).collect());
                p.fillers.retain(|x| has(&x.0));
            }
        }
    }
    e.name = format!("{}[{}]", e.name, keep.join(","));
    e
}
/// all sequences of at most `max` words
pub fn sequences(words: &[&str], max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last: Vec<Vec<&str>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for l in &last { for w in words { let mut x = l.clone(); x.push(*w); out.push(x.join(" ")); next.push(x); } }
        last = next;
    }
    out
}
pub const WORDS: [&str; 12] = ["make", "two", "tea", "room", "light", "tonight", "and", "green", "salon", "latte", "paris", "hello"];
/// ways of typing the same words: case, punctuation, spacing, accents, wide characters
pub fn variants(t: &str) -> Vec<String> {
    let title: String = t.split(' ').map(|w| { let mut c = w.chars(); c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default() }).collect::<Vec<_>>().join(" ");
    vec![
        t.to_uppercase(), title, t.replace(' ', "  "), format!("  {} ", t), format!("{}!", t), t.replace(' ', ", "), format!("é {}", t), format!("{} 日本", t),
        t.replace(' ', "\t"), format!("\u{1F375} {}", t), format!("ß{}", t), t.replace('e', "é"), format!("¿{}?", t), t.replace(' ', "-"), format!("\u{0130} {}", t), format!("{} \u{0130}", t.replace(' ', " \u{0130} ")),
    ]
}
/// sentences that reach every construction of the main world
pub const SENTENCES: [&str; 45] = [
    "", "make two tea", "make tea", "make green tea", "make latte", "make two latte", "make tea and chai", "tea and tea", "tea room", "green tea room", "make coffee now",
    "two coffee and tea", "3 cups and green tea", "light salon", "light the salon", "light living room", "salon", "bed", "light", "tonight", "two", "tonight in paris",
    "tonight in new york", "paris tonight", "make tonight paris", "hello", "hello the", "the hello a", "two two", "chai", "make the tea", "nothing here", "green", "make",
    "light green room", "hello tea", "tea hello", "make two two tea", "in paris tea", "when tea", "latte and latte", "make three chai and latte and tea", "tea tonight", "room two", "new york two",
];

/// Intents A0.. that all recognise TIE_TEXT, intent k with `slots[k]` slots.
pub const TIE_TEXT: &str = "go tea bed 3 paris tonight salon";
pub fn tie_world(name: &str, pipeline: &str, slots: &[usize]) -> Engine {
    let mut e = base(name);
    let words = ["tea", "bed", "3", "paris", "tonight", "salon"];
    let ents = ["drink", "room", "snips/number", "snips/city", "snips/datetime", "room"];
    let has = |k: usize, i: usize| (i + 6 - k % 6) % 6 < slots[k];
    let of = |k: usize| (0..6usize).filter(move |i| has(k, *i));
    e.intents = (0..slots.len()).map(|k| (format!("A{}", k), of(k).map(|i| (format!("s{}", i), s(ents[i]))).collect())).collect();
    let text = |k: usize, ph: &dyn Fn(usize) -> String| format!("go {}", (0..6).map(|i| if has(k, i) { ph(i) } else { s(words[i]) }).collect::<Vec<_>>().join(" "));
    let scope = |k: usize, builtin: bool| { let mut v: Vec<S> = of(k).map(|i| s(ents[i])).filter(|x| x.starts_with("snips/") == builtin).collect(); v.dedup(); v };
    e.parsers = pipeline.chars().map(|c| match c {
        'D' => (s("deterministic_intent_parser"), Parser::Det(Det {
            patterns: (0..slots.len()).map(|k| (format!("A{}", k), vec![format!(r"^\s*{}\s*$", text(k, &|i| format!("(?P<g{}>{})", i, words[i])).replace(' ', r"\s*"))])).collect(),
            groups: (0..6).map(|i| (format!("g{}", i), format!("s{}", i))).collect(),
            slots: e.intents.clone(), ignore_sw: false, sw_whitelist: vec![],
        })),
        'L' => (s("lookup_intent_parser"), Parser::Lookup(Lookup {
            intents: e.intents.iter().map(|i| i.0.clone()).collect(),
            slots: (0..6).map(|i| format!("s{}", i)).collect(),
            utterances: (0..slots.len()).map(|k| (text(k, &|i| crate::refm::placeholder(ents[i])), k, of(k).collect())).collect(),
            scopes: (0..slots.len()).map(|k| (vec![format!("A{}", k)], scope(k, true), scope(k, false))).collect(),
            ignore_sw: false, sw_whitelist: vec![],
        })),
        _ => (s("probabilistic_intent_parser"), Parser::Prob(Prob {
            intents: (0..slots.len()).map(|k| Some(format!("A{}", k))).chain([None]).collect(),
            feat: Some(feat()),
            intercept: Some(vec![0.25; slots.len() + 1]),
            coeffs: Some(vec![vec![0.5; 13]; slots.len() + 1]),
            fillers: (0..slots.len()).map(|k| (format!("A{}", k), Filler { mapping: e.intents[k].1.clone(), scheme: 1, features: vec![], crf: None })).collect(),
        })),
    }).collect();
    e
}

/// Engines whose tagger gives each word one label, for every choice of labels: the found slots cover
/// parts of entities, several entities, punctuation and unknown words.
pub const TAG_WORDS: [&str; 5] = ["tea", "green", "twenty", "one", ","];
pub fn tag_worlds(step: usize) -> Vec<Engine> {
    let choices: [&[&str]; 5] = [&["B-f", "B-g", "I-f", "O"], &["B-g", "B-f", "B-n"], &["B-n", "B-d", "I-n", "B-f"], &["I-n", "B-n", "I-d", "I-f"], &["I-f", "B-f", "I-n", "I-g"]];
    let total: usize = choices.iter().map(|c| c.len()).product();
    (0..total).step_by(step).map(|n| {
        let mut k = n;
        let tag: Vec<&str> = choices.iter().map(|c| { let x = c[k % c.len()]; k /= c.len(); x }).collect();
        let pipeline = ["P", "PL", "LP"][n % 3];
        let mut e = base(&format!("tags-{}-{}", pipeline, tag.join("")));
        e.entities = vec![
            ent("first", true, &[("tea", "black tea"), ("green", "grass"), ("twenty", "many"), ("kiwi", "fruit"), ("\u{2c65}", "letter"), ("!", "mark"), ("& %", "marks")]),
            // (values whose capital letters have another number of bytes: Kelvin, A with stroke)
            ent("second", n % 2 == 0, &[("tea", "tea tree"), ("green tea", "sencha"), ("green", "colour"), ("green kiwi", "green fruit"), ("kiwi", "bird"), ("\u{2c65}", "a stroke"), ("green \u{2c65}", "green stroke")]),
        ];
        e.gaz = vec![];
        e.grammar = vec![number("twenty", 20.0), number("twenty one", 21.0), number("one", 1.0), instant("twenty", "T20", &["T21"]), instant("twenty one", "T2001", &[])];
        e.intents = vec![(s("Mix"), pairs(&[("f", "first"), ("g", "second"), ("n", "snips/number"), ("d", "snips/datetime")])), (s("Other"), pairs(&[("o", "second")]))];
        let state = |m: &dyn Fn(&str) -> String| TAG_WORDS.iter().zip(&tag).map(|(w, t)| (format!("ngram_1:{}", w), m(t), 3.0)).chain(["kiwi", "\u{2c65}", "!", "&", "%"].iter().map(|w| (format!("ngram_1:{}", w), m(tag[0]), 3.0))).collect::<Vec<_>>();
        let filler = |i: usize, labels: &[&str], m: &dyn Fn(&str) -> String| Filler { mapping: e.intents[i].1.clone(), scheme: 1, features: vec![ngram(1, &[0])], crf: Some(Crf { labels: ss(labels), state: state(m), trans: vec![] }) };
        let other = |t: &str| s(match t { "O" | "B-n" => "O", t if t.starts_with('B') => "B-o", _ => "I-o" });
        let prob = Prob {
            intents: vec![Some(s("Mix")), Some(s("Other")), None], feat: None, intercept: None, coeffs: None,
            fillers: vec![(s("Mix"), filler(0, &["O", "B-f", "I-f", "B-g", "I-g", "B-n", "I-n", "B-d", "I-d"], &|t| s(t))), (s("Other"), filler(1, &["O", "B-o", "I-o"], &other))],
        };
        let lookup = Lookup {
            intents: ss(&["Mix", "Other"]), slots: ss(&["f", "g", "n", "d", "o"]),
            utterances: vec![(s("%FIRST%"), 0, vec![0]), (s("%SNIPSNUMBER% %SECOND%"), 0, vec![2, 1]), (s("%FIRST% %SNIPSDATETIME%"), 0, vec![0, 3]), (s("%SECOND%"), 1, vec![4]), (s("%SECOND% one"), 1, vec![4])],
            scopes: vec![(ss(&["Mix"]), ss(&["snips/number", "snips/datetime"]), ss(&["first", "second"])), (ss(&["Other"]), vec![], ss(&["second"]))],
            ignore_sw: false, sw_whitelist: vec![],
        };
        e.parsers = pipeline.chars().map(|c| if c == 'P' { (s("probabilistic_intent_parser"), Parser::Prob(prob.clone())) } else { (s("lookup_intent_parser"), Parser::Lookup(lookup.clone())) }).collect();
        e
    }).collect()
}

/// An engine whose names are unusual: not ASCII, differing by case only, containing one another, with
/// spaces and dashes; intents with many entities; utterances and patterns that are not ASCII.
pub fn odd_world(pipeline: &str, sw: bool) -> Engine { odd_with(pipeline, sw, false) }
/// `clash`: some stop words are also names of entities, and the intents of the lookup parser ignore different ones
pub fn odd_with(pipeline: &str, sw: bool, clash: bool) -> Engine {
    let mut e = base(&format!("odd-{}{}", if pipeline.is_empty() { "0" } else { pipeline }, if sw { "-sw" } else { "" }));
    e.entities = vec![
        ent("pièce", false, &[("salon", "living room"), ("room", "any room"), ("tea room", "tea room")]),
        ent("Éclair Type", true, &[("tea", "black tea"), ("green tea", "sencha")]),
        ent("a", false, &[("two", "deux a"), ("light", "a light")]), ent("bc", true, &[("latte", "bc latte"), ("hello", "bc hello")]),
        ent("ab", false, &[("two", "deux ab"), ("light", "ab light")]), ent("c", true, &[("latte", "c latte")]), ent("d-e_f", true, &[("green", "d green"), ("été", "summer")]),
    ];
    e.res.stop_words = Some(if clash { ss(&["the", "a", "pièce", "snipsnumber"]) } else { ss(&["the", "é", "please"]) });
    e.intents = vec![
        (s("Make"), pairs(&[("What", "Éclair Type"), ("what", "pièce"), ("n-1", "snips/number"), ("x", "a"), ("y", "bc")])),
        (s("make"), pairs(&[("x", "ab"), ("y", "c"), ("t", "snips/datetime"), ("n", "snips/number"), ("p", "snips/city"), ("é", "d-e_f"), ("r", "pièce")])),
        (s("Été"), pairs(&[("what", "d-e_f"), ("where", "pièce"), ("w", "pièce")])),
        (s("Hello World"), vec![]),
    ];
    let ph = |n: &str| crate::refm::placeholder(n);
    let g = |k: usize, n: &str| format!("(?P<group{}>{})", k, ph(n));
    let rx = |parts: &[String]| format!(r"^\s*{}\s*$", parts.join(r"\s*"));
    let groups = ["What", "what", "n-1", "x", "y", "t", "n", "p", "é", "r", "where", "w"];
    let det = Det {
        patterns: vec![
            (s("Make"), vec![rx(&[s("make"), g(3, "a"), g(4, "bc")]), rx(&[g(0, "Éclair Type"), g(1, "pièce")]), rx(&[g(3, "a"), g(0, "Éclair Type"), g(1, "pièce"), g(4, "bc")]), rx(&[s("make"), g(2, "snips/number"), g(4, "bc")]), rx(&[s("make"), g(0, "Éclair Type")])]),
            (s("make"), vec![rx(&[g(3, "ab"), g(4, "c")]), rx(&[g(5, "snips/datetime"), g(7, "snips/city")]), rx(&[g(6, "snips/number"), s("and"), g(5, "snips/datetime"), g(7, "snips/city")]), rx(&[g(8, "d-e_f"), g(9, "pièce"), g(3, "ab"), g(4, "c")])]),
            (s("Été"), vec![rx(&[s("été"), g(10, "pièce")]), rx(&[s("É"), g(1, "d-e_f")]), rx(&[s("room"), s("(?P<group1>[^%]+)")])]),
            (s("Hello World"), vec![rx(&[s("hello"), s("paris")]), rx(&[s("ça"), s("va")])]),
        ],
        groups: groups.iter().enumerate().map(|(i, n)| (format!("group{}", i), s(n))).collect(),
        slots: e.intents.clone(),
        ignore_sw: sw,
        sw_whitelist: if sw { vec![(s("make"), ss(&["the"])), (s("Été"), ss(&["pièce", "the", "a", "snipsnumber"]))] } else { vec![] },
    };
    let custom = |i: usize| { let mut v: Vec<S> = e.intents[i].1.iter().map(|x| x.1.clone()).filter(|x| !x.starts_with("snips/")).collect(); v.dedup(); v };
    let builtin = |i: usize| e.intents[i].1.iter().map(|x| x.1.clone()).filter(|x| x.starts_with("snips/")).collect::<Vec<S>>();
    let all = |f: &dyn Fn(usize) -> Vec<S>| { let mut v: Vec<S> = (0..3).flat_map(|i| f(i)).collect(); v.sort(); v.dedup(); v };
    let u = |parts: &[&str]| parts.iter().map(|p| if p.starts_with('@') { ph(&p[1..]) } else { s(p) }).collect::<Vec<_>>().join(" ");
    let lookup = Lookup {
        intents: e.intents.iter().map(|i| i.0.clone()).collect(),
        slots: ss(&groups),
        utterances: vec![
            (u(&["make", "@bc"]), 0, vec![4]), (u(&["@Éclair Type", "@pièce"]), 0, vec![0, 1]), (u(&["make", "@snips/number", "@Éclair Type"]), 0, vec![2, 0]), (u(&["make", "@a"]), 0, vec![3]),
            (u(&["@ab", "@c"]), 1, vec![3, 4]), (u(&["@snips/datetime", "@snips/city"]), 1, vec![5, 7]), (u(&["@snips/number", "and", "@snips/city", "@snips/datetime"]), 1, vec![6, 7, 5]), (u(&["le", "@d-e_f", "@pièce"]), 1, vec![8, 9]),
            (u(&["Été", "@pièce"]), 2, vec![10]), (u(&["ÇA", "@d-e_f"]), 2, vec![1]), (u(&["@pièce", "@pièce"]), 2, vec![10, 11]),
            (u(&["hello", "paris"]), 3, vec![]), (u(&["Ça", "VA"]), 3, vec![]),
        ],
        scopes: if sw {
            (0..4).map(|i| (vec![e.intents[i].0.clone()], builtin(i), custom(i))).collect()
        } else {
            vec![(vec![s("Hello World")], vec![], vec![]), (ss(&["Make", "make", "Été"]), all(&builtin), all(&custom))]
        },
        ignore_sw: sw,
        sw_whitelist: if sw && clash { vec![(s("Été"), ss(&["the", "a"]))] } else { vec![] },
    };
    let filler = |i: usize, labels: &[&str], state: &[(&str, &str, f64)], names: &[&str]| Filler {
        mapping: e.intents[i].1.clone(),
        scheme: 1,
        features: vec![ngram(1, &[0]), fac("entity_match", json!({"entities": names, "tagging_scheme_code": 1, "use_stemming": false}), &[0]), fac("builtin_entity_match", json!({"entity_labels": ["snips/number", "snips/city", "snips/datetime"], "tagging_scheme_code": 1}), &[0])],
        crf: Some(Crf { labels: ss(labels), state: st(state), trans: vec![] }),
    };
    let prob = Prob {
        intents: e.intents.iter().map(|i| Some(i.0.clone())).chain([None]).collect(),
        feat: Some(Feat {
            scope: ss(&["snips/number", "snips/datetime", "snips/city"]),
            vocab: ss(&["make", "ete", "entityfeaturepièce", "entityfeatureéclairtype", "entityfeaturedef", "entityfeatureab", "builtinentityfeaturesnipsnumber", "hello", "entityfeaturebc", "entityfeaturec", "entityfeatured-e_f", "room"]),
            idf: vec![1.5, 1.25, 2.0, 1.75, 3.0, 1.1, 1.2, 1.3, 1.4, 1.6, 1.05, 1.0],
            stemming: false, clusters: None,
            cooc: Some(Cooc { scope: ss(&["snips/number", "snips/city"]), pairs: pairs(&[("make", "ÉCLAIRTYPE"), ("AB", "C"), ("PIÈCE", "PIÈCE")]), window: None, filter_sw: true, keep_order: true, unknown: None }),
        }),
        intercept: Some(vec![-0.8, -0.9, -1.0, -1.1, -0.55]),
        coeffs: Some((0..5).map(|r| (0..15).map(|c| if r == 4 { -0.5 } else if c % 4 == r { 1.7 + 0.1 * c as f32 } else { -0.4 - 0.05 * ((r * 7 + c * 3) % 5) as f32 }).collect()).collect()),
        fillers: vec![
            (s("Make"), filler(0, &["O", "B-What", "I-What", "B-what", "B-n-1", "B-x", "B-y"], &[("entity_match_Éclair Type:B-", "B-What", 2.0), ("entity_match_Éclair Type:I-", "I-What", 2.0), ("entity_match_pièce:B-", "B-what", 2.0), ("builtin_entity_match_snips/number:B-", "B-n-1", 2.5), ("entity_match_a:B-", "B-x", 2.0), ("entity_match_bc:B-", "B-y", 2.0), ("ngram_1:and", "I-What", 1.5)], &["Éclair Type", "pièce", "a", "bc"])),
            (s("make"), filler(1, &["O", "B-x", "B-y", "B-t", "B-n", "B-p", "I-p", "B-é", "B-r"], &[("entity_match_ab:B-", "B-x", 2.0), ("entity_match_c:B-", "B-y", 2.0), ("builtin_entity_match_snips/datetime:B-", "B-t", 2.5), ("builtin_entity_match_snips/city:B-", "B-p", 2.0), ("entity_match_d-e_f:B-", "B-é", 2.0), ("entity_match_pièce:B-", "B-r", 2.0), ("ngram_1:and", "B-é", 1.0)], &["ab", "c", "d-e_f", "pièce"])),
            (s("Été"), filler(2, &["O", "B-what", "B-where"], &[("entity_match_d-e_f:B-", "B-what", 2.0), ("entity_match_pièce:B-", "B-where", 2.0), ("ngram_1:ete", "B-what", 1.0), ("ngram_1:e", "B-what", 1.0)], &["d-e_f", "pièce"])),
            (s("Hello World"), Filler { mapping: vec![], scheme: 1, features: vec![], crf: None }),
        ],
    };
    e.parsers = pipeline.chars().map(|c| match c {
        'D' => (s("deterministic_intent_parser"), Parser::Det(det.clone())),
        'L' => (s("lookup_intent_parser"), Parser::Lookup(lookup.clone())),
        _ => (s("probabilistic_intent_parser"), Parser::Prob(prob.clone())),
    }).collect();
    e
}
pub const ODD_SENTENCES: [&str; 35] = [
    "make two latte", "tea salon", "green tea salon", "two tea salon latte", "make tea", "make green tea", "light latte", "two latte", "tonight paris", "two and tonight paris", "3 and tonight new york",
    "green room light latte", "été salon", "ÉTÉ SALON", "Été the tea room", "é green", "É été", "room green", "room été pièce", "hello paris", "HELLO the PARIS", "Ça va", "ÇA VA", "ça green", "make latte", "make hello",
    "make 3 tea", "make two green tea", "salon room", "tea room salon", "green tea room", "3 and paris tonight", "make snipsnumber tea", "tea and salon", "le été the salon",
];

/// Every kind of builtin entity in one intent, and more custom entities than that; words that are of
/// every kind at once; three intents in one group of the lookup parser, the last of which keeps a stop word.
pub const KINDS: [&str; 17] = ["amountOfMoney", "duration", "number", "ordinal", "temperature", "datetime", "date", "time", "datePeriod", "timePeriod", "percentage", "musicAlbum", "musicArtist", "musicTrack", "city", "country", "region"];
pub const KIND_WORDS: [&str; 17] = ["five bucks", "an hour", "seven", "third", "hot", "noon", "monday", "at six", "this week", "all day", "half", "thriller", "queen", "imagine", "lyon", "peru", "texas"];
pub fn kinds_world(pipeline: &str, sw: bool) -> Engine {
    let mut e = base(&format!("kinds-{}{}", pipeline, if sw { "-sw" } else { "" }));
    e.entities = (0..6).map(|i| ent(&format!("custom{}", i), i % 2 == 0, &[(["uno", "due", "tre", "quattro", "cinque", "sei"][i], ["one", "two", "three", "four", "five", "six"][i]), ("tutti", ["t0", "t1", "t2", "t3", "t4", "t5"][i])])).collect();
    let value = |k: usize, v: i64| match k {
        0 => json!({"kind": "AmountOfMoney", "value": v, "precision": "Exact", "unit": "$"}),
        1 => json!({"kind": "Duration", "years": 0, "quarters": 0, "months": 0, "weeks": 0, "days": 0, "hours": v, "minutes": 0, "seconds": 0, "precision": "Approximate"}),
        2 => json!({"kind": "Number", "value": v}),
        3 => json!({"kind": "Ordinal", "value": v}),
        4 => json!({"kind": "Temperature", "value": v, "unit": null}),
        5 | 6 | 7 => json!({"kind": "InstantTime", "value": format!("T{}-{}", k, v), "grain": "Day", "precision": "Exact"}),
        8 | 9 => json!({"kind": "TimeInterval", "from": format!("T{}-{}", k, v), "to": null}),
        _ => json!({"kind": "Percentage", "value": v}),
    };
    let id = |k: usize| format!("snips/{}", KINDS[k]);
    // "ten" is of every kind
    e.grammar = (0..11).flat_map(|k| [json!({"kind": id(k), "text": KIND_WORDS[k], "value": value(k, 1), "alternatives": [value(k, 2)]}), json!({"kind": id(k), "text": "ten", "value": value(k, 10), "alternatives": []})]).collect();
    e.gaz = (11..17).map(|k| EntityVals { name: id(k), extensible: true, values: vec![(s(KIND_WORDS[k]), format!("the {}", KIND_WORDS[k])), (s("georgia"), format!("georgia {}", k)), (s("georgia"), format!("georgia on my mind {}", k))], threshold: 1.0 }).collect();
    let kind_slots: Vec<(S, S)> = (0..17).map(|k| (s(KINDS[k]), id(k))).collect();
    let custom_slots: Vec<(S, S)> = (0..6).map(|i| (format!("c{}", i), format!("custom{}", i))).collect();
    e.intents = vec![(s("Kinds"), kind_slots.clone()), (s("Customs"), custom_slots.clone()), (s("Last"), vec![custom_slots[5].clone(), kind_slots[2].clone()])];
    let ph = |n: &str| crate::refm::placeholder(n);
    let names: Vec<S> = kind_slots.iter().chain(&custom_slots).map(|x| x.0.clone()).collect();
    let at = |n: &str| names.iter().position(|x| x == n).unwrap();
    let g = |slot: &(S, S)| format!("(?P<group{}>{})", at(&slot.0), ph(&slot.1));
    let det = Det {
        patterns: vec![
            (s("Kinds"), kind_slots.iter().map(|x| format!(r"^\s*say\s*{}\s*$", g(x))).chain([format!(r"^\s*{}\s*{}\s*{}\s*$", g(&kind_slots[16]), g(&kind_slots[15]), g(&kind_slots[14]))]).collect()),
            (s("Customs"), custom_slots.iter().map(|x| format!(r"^\s*give\s*{}\s*$", g(x))).chain([format!(r"^\s*{}\s*$", custom_slots.iter().rev().map(g).collect::<Vec<_>>().join(r"\s*"))]).collect()),
            (s("Last"), vec![format!(r"^\s*the\s*{}\s*$", g(&custom_slots[5])), format!(r"^\s*say\s*the\s*{}\s*$", g(&kind_slots[2])), s(r"^\s*the\s*end\s*$")]),
        ],
        groups: names.iter().enumerate().map(|(i, n)| (format!("group{}", i), n.clone())).collect(),
        slots: e.intents.clone(),
        ignore_sw: sw,
        sw_whitelist: if sw { vec![(s("Last"), ss(&["the"]))] } else { vec![] },
    };
    let mut utterances: Vec<(S, usize, Vec<usize>)> = kind_slots.iter().map(|x| (format!("say {}", ph(&x.1)), 0, vec![at(&x.0)])).collect();
    utterances.extend(custom_slots.iter().map(|x| (format!("give {}", ph(&x.1)), 1, vec![at(&x.0)])));
    utterances.push((kind_slots[14..].iter().rev().map(|x| ph(&x.1)).collect::<Vec<_>>().join(" "), 0, vec![16, 15, 14]));
    utterances.push((custom_slots.iter().rev().map(|x| ph(&x.1)).collect::<Vec<_>>().join(" "), 1, vec![22, 21, 20, 19, 18, 17]));
    utterances.push((format!("the {}", ph("custom5")), 2, vec![22]));
    utterances.push((s("the end"), 2, vec![]));
    let lookup = Lookup {
        intents: ss(&["Kinds", "Customs", "Last"]),
        slots: names.clone(),
        utterances,
        scopes: vec![(ss(&["Kinds", "Customs", "Last"]), kind_slots.iter().map(|x| x.1.clone()).collect(), custom_slots.iter().map(|x| x.1.clone()).collect())],
        ignore_sw: sw,
        sw_whitelist: if sw { vec![(s("Last"), ss(&["the"]))] } else { vec![] },
    };
    let b = |x: &(S, S)| format!("B-{}", x.0);
    let labels = |v: &[(S, S)]| std::iter::once(s("O")).chain(v.iter().map(b)).collect::<Vec<S>>();
    let filler = |i: usize| {
        let (bu, cu): (Vec<_>, Vec<_>) = e.intents[i].1.iter().cloned().partition(|x| x.1.starts_with("snips/"));
        let mut features = vec![ngram(1, &[0])];
        if !bu.is_empty() { features.push(fac("builtin_entity_match", json!({"entity_labels": bu.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), "tagging_scheme_code": 1}), &[0])); }
        if !cu.is_empty() { features.push(fac("entity_match", json!({"entities": cu.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), "tagging_scheme_code": 1, "use_stemming": false}), &[0])); }
        // the words of several kinds go to a kind of their own choice: the weights all differ
        let state = bu.iter().map(|x| ("builtin_entity_match", x)).chain(cu.iter().map(|x| ("entity_match", x))).map(|(f, x)| (format!("{}_{}:B-", f, x.1), b(x), 2.0 + ((at(&x.0) * 7) % 23) as f64 / 8.0)).collect();
        Filler { mapping: e.intents[i].1.clone(), scheme: 1, features, crf: Some(Crf { labels: labels(&e.intents[i].1), state, trans: vec![] }) }
    };
    let vocab: Vec<S> = (0..17).map(|k| format!("builtinentityfeaturesnips{}", KINDS[k].to_lowercase())).chain((0..6).map(|i| format!("entityfeaturecustom{}", i))).chain(ss(&["say", "give", "end"])).collect();
    let n = vocab.len();
    let prob = Prob {
        intents: vec![Some(s("Kinds")), Some(s("Customs")), Some(s("Last")), None],
        feat: Some(Feat { scope: kind_slots.iter().map(|x| x.1.clone()).collect(), idf: (0..n).map(|i| 1.0 + ((i * 5) % 13) as f32 / 10.0).collect(), vocab, stemming: false, clusters: None, cooc: None }),
        intercept: Some(vec![-0.8, -0.9, -1.0, -0.55]),
        coeffs: Some((0..4usize).map(|r| (0..n).map(|c| { let own = match c { 0..=16 | 23 => 0, 17..=22 | 24 => 1, _ => 2 }; if own == r { 1.5 + 0.07 * c as f32 } else { -0.3 - 0.05 * ((r * 7 + c * 3) % 5) as f32 } }).collect()).collect()),
        fillers: (0..3).map(|i| (e.intents[i].0.clone(), filler(i))).collect(),
    };
    e.parsers = pipeline.chars().map(|c| match c {
        'D' => (s("deterministic_intent_parser"), Parser::Det(det.clone())),
        'L' => (s("lookup_intent_parser"), Parser::Lookup(lookup.clone())),
        _ => (s("probabilistic_intent_parser"), Parser::Prob(prob.clone())),
    }).collect();
    e
}
pub fn kinds_sentences() -> Vec<String> {
    let mut v: Vec<String> = KIND_WORDS.iter().map(|w| format!("say {}", w)).collect();
    v.extend(ss(&["say ten", "say georgia", "give uno", "give quattro", "give sei", "give tutti", "texas peru lyon", "georgia peru georgia", "sei cinque quattro tre due uno", "the sei", "the end", "end", "say the seven", "seven third half", "queen imagine ten uno"]));
    v
}
