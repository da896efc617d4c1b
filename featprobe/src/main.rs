//! Answers, for whatever language features it was built with, what the crate makes of the
//! texts, codes and names given as JSON on standard input.  Judged by harness C24.

use elasticlunr::lang::{from_code, from_name, languages, tokenize_whitespace};
use elasticlunr::{Index, Language};
use serde_json::{json, Map, Value};

struct Shared(std::rc::Rc<dyn Language>);
impl Language for Shared {
    fn name(&self) -> String {
        self.0.name()
    }
    fn code(&self) -> String {
        self.0.code()
    }
    fn tokenize(&self, t: &str) -> Vec<String> {
        self.0.tokenize(t)
    }
    fn make_pipeline(&self) -> elasticlunr::Pipeline {
        self.0.make_pipeline()
    }
}

/// FNV-1a over the tokens, each ended by a byte no UTF-8 text holds.
fn hash(tokens: &[String]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for t in tokens {
        for b in t.bytes().chain([0xff]) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    h
}

fn main() {
    let q: Value = serde_json::from_reader(std::io::stdin()).unwrap();
    let strings = |k: &str| -> Vec<String> { serde_json::from_value(q[k].clone()).unwrap() };
    let (mut tokens, mut exports, mut hashes, mut pipelines, mut listed) = (Map::new(), Map::new(), Map::new(), Map::new(), vec![]);
    let bulk = strings("bulk");
    for l in languages() {
        let l: std::rc::Rc<dyn Language> = l.into();
        listed.push(json!([l.name(), l.code()]));
        let p = l.make_pipeline();
        let stages: Vec<_> = p.queue.iter().map(|f| f.name()).collect();
        pipelines.insert(l.code(), json!(stages));
        let (mut a, mut b) = (vec![], vec![]);
        for t in strings("texts") {
            let v = l.tokenize(&t);
            a.push(json!([tokenize_whitespace(&t), v, p.run(v.clone())]));
            let mut i = Index::with_language(Box::new(Shared(l.clone())), ["body"]);
            i.add_doc("1", [&t]);
            b.push(json!(i.to_json()));
        }
        tokens.insert(l.code(), json!(a));
        exports.insert(l.code(), json!(b));
        let h: Vec<u64> = bulk
            .iter()
            .map(|t| {
                let mut v = l.tokenize(t);
                v.extend(p.run(v.clone()));
                v.extend(tokenize_whitespace(t));
                hash(&v)
            })
            .collect();
        hashes.insert(l.code(), json!(h));
    }
    let codes: Vec<_> = strings("codes").iter().map(|c| from_code(c).map(|l| l.name())).collect();
    let names: Vec<_> = strings("names").iter().map(|c| from_name(c).map(|l| l.code())).collect();
    println!("{}", json!({"languages": listed, "tokens": tokens, "exports": exports, "hashes": hashes, "pipelines": pipelines, "from_code": codes, "from_name": names}));
}
