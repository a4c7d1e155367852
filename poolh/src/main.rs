//! poolh <scenarios> <out>: explores the schedules of every scenario on the real pools and writes
//! the distinct traces as trees.
mod pool;
mod sched;

use {
    sched::{Ev, Plan},
    serde_json::{json, Value as J},
    std::{collections::HashMap, io::Write},
};

#[derive(Default)]
struct Trie {
    /// parent, event
    nodes: Vec<(usize, Ev)>,
    next: HashMap<(usize, Ev), usize>,
    ends: HashMap<usize, usize>,
}

impl Trie {
    fn add(&mut self, trace: &[Ev]) {
        let mut at = 0;
        for e in trace {
            let n = self.nodes.len() + 1;
            at = *self.next.entry((at, *e)).or_insert_with(|| {
                self.nodes.push((at, *e));
                n
            });
        }
        *self.ends.entry(at).or_default() += 1;
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    #[cfg(vp_hooks)]
    mysql_connector::vp_hooks::set_hook(sched::point);
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[1]).unwrap();
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).unwrap());
    let workers = sched::Workers::new(6);
    // the tries of all scenarios as one graph: equal subtrees are one node
    let mut table: HashMap<Vec<(Ev, usize)>, usize> = HashMap::new();
    let mut graph: Vec<Vec<(Ev, usize)>> = vec![];
    let mut roots: Vec<J> = vec![];
    let mut stats: Vec<J> = vec![];
    let (mut all_runs, mut all_traces, mut all_spins, mut incomplete) = (0usize, 0usize, 0usize, 0usize);
    for line in text.lines() {
        let sc: J = serde_json::from_str(line).unwrap();
        let n = sc["n"].as_u64().unwrap() as usize;
        let progs: Vec<Vec<String>> = sc["progs"]
            .as_array()
            .unwrap()
            .iter()
            .map(|p| p.as_array().unwrap().iter().map(|o| o.as_str().unwrap().to_string()).collect())
            .collect();
        let buf = sc["kind"] == "buf";
        let (cap, init) = (sc["cap"].as_u64().unwrap_or(0) as usize, sc["init"].as_u64().unwrap_or(0) as usize);
        let mut trie = Trie::default();
        let (mut runs, mut spins, mut panics) = (0usize, 0usize, Vec::new());
        let mut go = |plan: Plan, trie: &mut Trie| {
            let r = if buf { pool::exec_buf(n, &progs, cap, init, plan, &workers) } else { pool::exec(n, &progs, plan, &workers) };
            runs += 1;
            if r.spin {
                spins += 1;
            } else if let Some(p) = &r.panicked {
                if p.contains("HARNESS") {
                    eprintln!("{p}");
                    std::process::exit(3);
                }
                panics.push(p.clone());
            }
            trie.add(&r.trace);
            r
        };
        let mut complete = true;
        // systematic search with at most `pre` preemptions
        if let Some(pre) = sc["pre"].as_u64() {
            let max = sc["max"].as_u64().unwrap_or(200_000);
            let mut choices: Vec<usize> = vec![];
            let (mut count, mut stuck) = (0, false);
            loop {
                let r = go(Plan::Choices(choices.clone()), &mut trie);
                count += 1;
                stuck |= r.stuck;
                if count >= max || r.spin || (r.points > 400 && count >= 60) || (stuck && count >= 40) {
                    complete = false;
                    break;
                }
                // the last choice that can be changed without exceeding the bound
                let t = r.taken;
                let mut cost = vec![0u64; t.len() + 1];
                for (i, (_, c, stay)) in t.iter().enumerate() {
                    cost[i + 1] = cost[i] + u64::from(*stay && *c > 0);
                }
                let mut next = None;
                for i in (0..t.len()).rev() {
                    let (opts, c, stay) = t[i];
                    if c + 1 < opts && (!stay || cost[i] < pre) {
                        next = Some(i);
                        break;
                    }
                }
                match next {
                    None => break,
                    Some(i) => {
                        choices = t[..i].iter().map(|x| x.1).collect();
                        choices.push(t[i].1 + 1);
                    }
                }
            }
        }
        for s in sc["scheds"].as_array().into_iter().flatten() {
            go(Plan::Tasks(s.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize - 1).collect()), &mut trie);
        }
        for k in 0..sc["random"].as_u64().unwrap_or(0) {
            go(Plan::Random(k + 1 + 1_000_003 * sc["seed"].as_u64().unwrap_or(1)), &mut trie);
        }
        let k = trie.nodes.len() + 1;
        let mut kids: Vec<Vec<(Ev, usize)>> = vec![vec![]; k];
        for at in (0..k).rev() {
            let mut v = std::mem::take(&mut kids[at]);
            v.sort();
            let fresh = graph.len() + 1;
            let id = *table.entry(v).or_insert_with_key(|v| {
                graph.push(v.clone());
                fresh
            });
            if at > 0 {
                let (p, e) = trie.nodes[at - 1];
                kids[p].push((e, id));
            } else {
                roots.push(json!([n, id, roots.len()]));
            }
        }
        all_runs += runs;
        all_traces += trie.ends.len();
        all_spins += spins;
        incomplete += usize::from(!complete);
        if !panics.is_empty() {
            stats.push(json!({"scenario": sc, "panic": panics[0]}));
        }
    }
    let nodes: Vec<J> = graph.iter().map(|v| v.iter().map(|(e, c)| json!([e.0, e.1, e.2, c])).collect()).collect();
    writeln!(out, "{}", json!({"nodes": nodes, "roots": roots})).unwrap();
    out.flush().unwrap();
    println!("{}", json!({"runs": all_runs, "traces": all_traces, "spins": all_spins, "incomplete": incomplete, "nodes": graph.len(), "panics": stats}));
}
