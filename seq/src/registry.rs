//! C17: every small input against every small set of entries.

use std::cell::RefCell;
use std::sync::{Arc, Mutex};

use futures_util::FutureExt;
use regex::Regex;
use serde::{Deserialize, Serialize};
use stream_download::registry::{Input, InputType, Registry, RegistryEntry, Rule, Source};
use url::Url;

use crate::bad;
use crate::ctl::{Res, choose, note, saw, step};

/// A matcher: a plain string or a regular expression.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum M {
    S(String),
    R(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum D {
    Prefix(String),
    Str(M),
    AnyStr,
    AnyUrl,
    Scheme(M),
    AnyHttp,
    Domain(M),
    HttpDomain(M),
    Url(M, M),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Reg {
    /// rules an entry can have
    pub rules: Vec<D>,
    pub inputs: Vec<String>,
    /// prefixes of inputs that are already parsed
    pub prefixes: Vec<String>,
    /// how many rules each entry has
    pub entries: Vec<usize>,
    pub priorities: Vec<u32>,
    pub parsed: bool,
    /// inputs given to the same registry
    pub rounds: usize,
}

thread_local! {
    static REGEXES: RefCell<std::collections::HashMap<String, Regex>> = RefCell::default();
}

fn regex(p: &str) -> Regex {
    REGEXES.with_borrow_mut(|m| m.entry(p.to_string()).or_insert_with(|| Regex::new(p).expect("regex")).clone())
}

fn matches(m: &M, s: &str) -> bool {
    match m {
        M::S(x) => x == s,
        M::R(p) => regex(p).is_match(s),
    }
}

fn matcher(m: &M) -> stream_download::registry::Matcher {
    match m {
        M::S(s) => s.as_str().into(),
        M::R(p) => regex(p).into(),
    }
}

fn rule(d: &D) -> Rule {
    match d {
        D::Prefix(p) => Rule::prefix(p.clone()),
        D::Str(m) => Rule::string(matcher(m)),
        D::AnyStr => Rule::any_string(),
        D::AnyUrl => Rule::any_url(),
        D::Scheme(m) => Rule::url_scheme(matcher(m)),
        D::AnyHttp => Rule::any_http(),
        D::Domain(m) => Rule::url_domain(matcher(m)),
        D::HttpDomain(m) => Rule::http_domain(matcher(m)),
        D::Url(s, d) => Rule::url(matcher(s), matcher(d)),
    }
}

fn source(s: &str) -> Source {
    match Url::parse(s) {
        Ok(u) => Source::Url(u),
        Err(_) => Source::String(s.to_string()),
    }
}

/// Whether a rule that is not about prefixes holds.
fn holds(d: &D, s: &Source) -> bool {
    let http = |u: &Url| u.scheme() == "http" || u.scheme() == "https";
    match (d, s) {
        (D::Prefix(_), _) => false,
        (D::Str(m), Source::String(s)) => matches(m, s),
        (D::AnyStr, Source::String(_)) => true,
        (D::AnyUrl, Source::Url(_)) => true,
        (D::Scheme(m), Source::Url(u)) => matches(m, u.scheme()),
        (D::AnyHttp, Source::Url(u)) => http(u),
        (D::Domain(m), Source::Url(u)) => u.domain().is_some_and(|d| matches(m, d)),
        (D::HttpDomain(m), Source::Url(u)) => http(u) && u.domain().is_some_and(|d| matches(m, d)),
        (D::Url(a, b), Source::Url(u)) => matches(a, u.scheme()) && u.domain().is_some_and(|d| matches(b, d)),
        (D::Str(_) | D::AnyStr, Source::Url(_)) => false,
        (_, Source::String(_)) => false,
    }
}

type Calls = Arc<Mutex<Vec<(usize, Input)>>>;

struct Entry {
    index: usize,
    priority: u32,
    rules: Vec<Rule>,
    calls: Calls,
}

#[async_trait::async_trait]
impl RegistryEntry<usize> for Entry {
    fn priority(&self) -> u32 {
        self.priority
    }
    fn rules(&self) -> &[Rule] {
        &self.rules
    }
    async fn handler(&mut self, input: Input) -> usize {
        self.calls.lock().unwrap().push((self.index, input));
        let mut polls = 0;
        std::future::poll_fn(|cx| {
            polls += 1;
            cx.waker().wake_by_ref();
            if polls > 1 { std::task::Poll::Ready(()) } else { std::task::Poll::Pending }
        })
        .await;
        self.index
    }
}

pub fn run(s: &Reg) -> Res {
    let calls: Calls = Calls::default();
    let mut registry = Registry::new();
    let mut entries = vec![];
    for (index, n) in s.entries.iter().enumerate() {
        let rules: Vec<D> = (0..*n).map(|_| s.rules[choose(s.rules.len())].clone()).collect();
        let priority = s.priorities[choose(s.priorities.len())];
        registry = registry.entry(Entry { index, priority, rules: rules.iter().map(rule).collect(), calls: calls.clone() });
        entries.push((priority, index, rules));
    }
    // lower numbers first, otherwise in the order they were added
    entries.sort_by_key(|e| (e.0, e.1));
    for _ in 0..s.rounds {
        let text = &s.inputs[choose(s.inputs.len())];
        let (input, parsed): (InputType, Input) = if s.parsed {
            let prefix = match choose(s.prefixes.len() + 1) {
                0 => None,
                i => Some(s.prefixes[i - 1].clone()),
            };
            let i = Input { prefix, source: source(text) };
            (i.clone().into(), i)
        } else {
            (text.as_str().into(), Input { prefix: None, source: source(text) })
        };
        // entry, what its handler may be given
        let expected = entries.iter().find_map(|(_, index, rules)| {
            let by_prefix: Vec<Input> = rules
                .iter()
                .filter_map(|d| match d {
                    D::Prefix(p) if s.parsed => (parsed.prefix.as_ref() == Some(p)).then(|| parsed.clone()),
                    D::Prefix(p) => text.strip_prefix(p.as_str()).map(|rest| Input { prefix: Some(p.clone()), source: source(rest) }),
                    _ => None,
                })
                .collect();
            if !by_prefix.is_empty() {
                return Some((*index, by_prefix));
            }
            rules.iter().any(|d| holds(d, &parsed.source)).then(|| (*index, vec![parsed.clone()]))
        });
        step();
        let mut f = std::pin::pin!(registry.find_match(input));
        let mut polls = 0;
        let got = loop {
            if let Some(r) = f.as_mut().now_or_never() {
                break r;
            }
            polls += 1;
            if polls > 10 {
                bad!("hang", "find_match does not finish");
            }
        };
        let called = std::mem::take(&mut *calls.lock().unwrap());
        saw((text, got, called.len()));
        note(|| format!("{parsed:?} against {entries:?}: {got:?}, {called:?}"));
        match expected {
            None if got.is_some() || !called.is_empty() => {
                bad!("match", "{parsed:?} matches none of {entries:?}, but entry {got:?} was chosen")
            }
            None => {}
            Some((index, inputs)) => {
                if got != Some(index) {
                    bad!("match", "{parsed:?} belongs to entry {index} of {entries:?}, but {got:?} was chosen");
                }
                if called.len() != 1 || called[0].0 != index {
                    bad!("calls", "{parsed:?} belongs to entry {index} of {entries:?}, the handlers called are {called:?}");
                }
                let given = &called[0].1;
                if !inputs.contains(given) {
                    bad!("input", "the handler of entry {index} of {entries:?} was given {given:?} for {parsed:?}, expected one of {inputs:?}");
                }
                let raw = format!("{}{}", given.prefix.as_deref().unwrap_or(""), match &given.source {
                    Source::Url(u) => u.to_string(),
                    Source::String(s) => s.clone(),
                });
                if given.clone().into_raw() != raw {
                    bad!("raw", "{given:?} turns into {:?}, not {raw:?}", given.clone().into_raw());
                }
            }
        }
    }
    Ok(())
}

pub fn specs(deep: bool) -> Vec<Reg> {
    let s = |x: &str| M::S(x.into());
    let r = |x: &str| M::R(x.into());
    let p = |x: &str| D::Prefix(x.into());
    let rules = vec![
        p("x:"), p("http"), p(""), p("x"), D::Str(s("a")), D::Str(s("")), D::Str(r("^a")), D::Str(r("b")), D::AnyStr, D::AnyUrl, D::Scheme(s("http")),
        D::Scheme(r("^x")), D::Scheme(r("s")), D::AnyHttp, D::Domain(s("a.b")), D::Domain(r("b$")), D::HttpDomain(s("a.b")), D::HttpDomain(r("^c")),
        D::Url(s("https"), s("a.b")), D::Url(r("^(x|ftp)"), r("d")),
        D::Domain(s("1.2.3.4")), D::Url(r(""), r("")),
    ];
    let inputs: Vec<String> = [
        "", "a", "ab", "b", "x", "x:", "x:a", "x:x:a", "x:http://a.b/", "x://c.d", "xx:a", "http", "http:", "http://", "http://a.b/", "HTTP://A.B/Q", "https://a.b/p?x:#f",
        "https://c.d", "shttp://a.b", "ftp://c.d/", "file:///a.b", "http://1.2.3.4/", "http://[::1]/", "http://a.b.c/", "http://xa.b/", "mailto:a.b", "a.b", " http://a.b", "http://a.b:8080/",
        "http://user@a.b/", "https:a.b", "httpsx://a.b",
    ]
    .map(String::from)
    .to_vec();
    let prefixes: Vec<String> = ["x:", "x", "", "y"].map(String::from).to_vec();
    let reg = |rules: &[D], entries: &[usize], priorities: &[u32], parsed, rounds| Reg {
        rules: rules.to_vec(),
        inputs: inputs.clone(),
        prefixes: prefixes.clone(),
        entries: entries.to_vec(),
        priorities: priorities.to_vec(),
        parsed,
        rounds,
    };
    let few: Vec<D> = [0, 3, 4, 6, 9, 11, 13, 15, 18].map(|i: usize| rules[i].clone()).to_vec();
    let mut v = vec![];
    for parsed in [false, true] {
        v.push(reg(&rules, &[], &[1], parsed, 1));
        v.push(reg(&rules, &[1], &[1], parsed, 1));
        v.push(reg(&rules, &[2], &[1], parsed, 1));
        v.push(reg(&rules, &[1, 1], &[0, 1, u32::MAX], parsed, 1));
        v.push(reg(&few, &[1, 2], &[1, 2], parsed, 1));
        v.push(reg(&few, &[2, 0, 1], &[1, 2], parsed, 1));
        v.push(reg(&few, &[1, 1, 1], &[1, 2, 3], parsed, 1));
        v.push(reg(&few, &[1, 1], &[1], parsed, 2));
        if deep {
            v.push(reg(&rules, &[1, 1, 1], &[1, 2], parsed, 1));
            v.push(reg(&rules, &[3], &[1], parsed, 1));
            v.push(reg(&few, &[2, 2], &[1, 2], parsed, 1));
            v.push(reg(&few[..5], &[1, 1, 1, 1], &[1, 2], parsed, 1));
        }
    }
    v
}
