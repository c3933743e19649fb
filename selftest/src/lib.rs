//! Pairs of functions the engine must find equal (`a_*` and `b_*`) or must not
//! find equal (`x_*` and `y_*`): a test of the engine's library models.
#![allow(dead_code, clippy::all)]
use std::collections::*;

pub fn a_retain(mut v: Vec<f64>) -> Vec<f64> { v.retain(|x| *x > 0.); v }
pub fn b_retain(v: Vec<f64>) -> Vec<f64> { let mut o = vec![]; for x in v { if x > 0. { o.push(x) } } o }
pub fn x_retain(mut v: Vec<f64>) -> Vec<f64> { v.retain(|x| *x >= 0.); v }
pub fn y_retain(v: Vec<f64>) -> Vec<f64> { b_retain(v) }
pub fn a_dedup(mut v: Vec<usize>) -> Vec<usize> { v.dedup(); v }
pub fn b_dedup(v: Vec<usize>) -> Vec<usize> { let mut o = vec![]; for i in 0..v.len() { if i == 0 || v[i] != v[i - 1] { o.push(v[i]) } } o }
pub fn x_dedup(mut v: Vec<usize>) -> Vec<usize> { v.dedup(); v }
pub fn y_dedup(v: Vec<usize>) -> Vec<usize> { v }
pub fn a_dedup_by(mut v: Vec<(usize, f64)>) -> Vec<(usize, f64)> { v.dedup_by(|a, b| a.0 == b.0); v }
pub fn b_dedup_by(mut v: Vec<(usize, f64)>) -> Vec<(usize, f64)> { v.dedup_by_key(|a| a.0); v }
pub fn a_hretain(mut m: HashMap<usize, f64>) -> HashMap<usize, f64> { m.retain(|_k, v| *v != 0.); m }
pub fn b_hretain(m: HashMap<usize, f64>) -> HashMap<usize, f64> { m.into_iter().filter(|(_k, v)| *v != 0.).collect() }
pub fn a_hremove(mut m: HashMap<usize, f64>, k: usize) -> Option<f64> { m.remove(&k) }
pub fn b_hremove(m: HashMap<usize, f64>, k: usize) -> Option<f64> { m.get(&k).cloned() }
pub fn a_takewhile(v: &[f64]) -> f64 { v.iter().take(3).sum() }
pub fn b_takewhile(v: &[f64]) -> f64 { let mut s = 0.; for i in 0..v.len() { if i < 3 { s += v[i] } } s }
pub fn a_step(v: &[f64]) -> Vec<f64> { v.iter().step_by(2).cloned().collect() }
pub fn b_step(v: &[f64]) -> Vec<f64> { (0..(v.len() + 1) / 2).map(|i| v[2 * i]).collect() }
pub fn a_find_map(v: &[f64]) -> Option<f64> { v.iter().find_map(|x| if *x > 1. { Some(x * 2.) } else { None }) }
pub fn b_find_map(v: &[f64]) -> Option<f64> { for x in v { if *x > 1. { return Some(x * 2.) } } None }
pub fn a_find(v: &[f64]) -> Option<f64> { v.iter().find(|x| **x > 1.).copied() }
pub fn b_find(v: &[f64]) -> Option<f64> { for x in v { if *x > 1. { return Some(*x) } } None }
pub fn a_position(v: &[f64]) -> Option<usize> { v.iter().position(|x| *x > 1.) }
pub fn b_position(v: &[f64]) -> Option<usize> { let mut i = 0; while i < v.len() { if v[i] > 1. { return Some(i) } i += 1; } None }
pub fn a_all(v: &[f64]) -> bool { v.iter().all(|x| *x > 1.) }
pub fn b_all(v: &[f64]) -> bool { for x in v { if !(*x > 1.) { return false } } true }
pub fn a_any(v: &[f64]) -> bool { v.iter().any(|x| *x > 1.) }
pub fn b_any(v: &[f64]) -> bool { let mut r = false; for x in v { r |= *x > 1.; } r }
pub fn a_any2(v: &[f64]) -> bool { v.iter().any(|x| *x > 1.) }
pub fn b_any2(v: &[f64]) -> bool { v.iter().filter(|x| **x > 1.).count() > 0 }
pub fn a_any3(v: &[f64]) -> bool { v.iter().find(|x| **x > 1.).is_some() }
pub fn b_any3(v: &[f64]) -> bool { v.iter().any(|x| *x > 1.) }
pub fn a_try_fold(v: &[f64]) -> Option<f64> { let mut s = 0.; for x in v { if *x < 0. { return None } s += x; } Some(s) }
pub fn b_try_fold(v: &[f64]) -> Option<f64> { if v.iter().any(|x| *x < 0.) { return None } Some(v.iter().sum()) }
pub fn a_collect_opt(v: &[Option<f64>]) -> Option<Vec<f64>> { v.iter().cloned().collect() }
pub fn b_collect_opt(v: &[Option<f64>]) -> Option<Vec<f64>> { let mut o = vec![]; for x in v { match x { Some(y) => o.push(*y), None => return None } } Some(o) }
pub fn a_collect_res(v: &[Result<f64, ()>]) -> Result<Vec<f64>, ()> { v.iter().cloned().collect() }
pub fn b_collect_res(v: &[Result<f64, ()>]) -> Result<Vec<f64>, ()> { let mut o = vec![]; for x in v { o.push((*x)?) } Ok(o) }
pub fn a_partition(v: Vec<f64>) -> (Vec<f64>, Vec<f64>) { v.into_iter().partition(|x| *x > 0.) }
pub fn b_partition(v: Vec<f64>) -> (Vec<f64>, Vec<f64>) { let mut a = vec![]; let mut b = vec![]; for x in v { if x > 0. { a.push(x) } else { b.push(x) } } (a, b) }
pub fn a_drain(mut v: Vec<f64>) -> (Vec<f64>, Vec<f64>) { let d: Vec<f64> = v.drain(..).collect(); (d, v) }
pub fn b_drain(v: Vec<f64>) -> (Vec<f64>, Vec<f64>) { (v, vec![]) }
pub fn a_take(mut v: Vec<f64>) -> (Vec<f64>, Vec<f64>) { let d = std::mem::take(&mut v); (d, v) }
pub fn b_take(v: Vec<f64>) -> (Vec<f64>, Vec<f64>) { (v, Vec::new()) }
pub fn a_split_off(mut v: Vec<f64>, k: usize) -> Vec<f64> { if k > v.len() { return vec![] } let w = v.split_off(k); w }
pub fn b_split_off(v: Vec<f64>, k: usize) -> Vec<f64> { if k > v.len() { return vec![] } v[k..].to_vec() }
pub fn a_chunks(v: &[f64], n: usize) -> Vec<f64> { if v.len() != 2 * n { return vec![] } v.chunks(2).map(|c| c[0] + c[1]).collect() }
pub fn b_chunks(v: &[f64], n: usize) -> Vec<f64> { if v.len() != 2 * n { return vec![] } (0..n).map(|i| v[2 * i] + v[2 * i + 1]).collect() }
pub fn a_reverse(mut v: Vec<f64>) -> Vec<f64> { v.reverse(); v }
pub fn b_reverse(v: Vec<f64>) -> Vec<f64> { v.into_iter().rev().collect() }
pub fn a_scan(v: &[usize]) -> Vec<usize> { v.iter().scan(0, |a, x| { *a += x; Some(*a) }).collect() }
pub fn b_scan(v: &[usize]) -> Vec<usize> { let mut a = 0; let mut o = vec![]; for x in v { a += x; o.push(a) } o }
pub fn a_clamp(x: f64) -> f64 { x.clamp(-1., 1.) }
pub fn b_clamp(x: f64) -> f64 { if x < -1. { -1. } else if x > 1. { 1. } else { x } }
pub fn a_max(x: f64, y: f64) -> f64 { if x > y { x } else { y } }
pub fn b_max(x: f64, y: f64) -> f64 { x.max(y) }
pub fn a_entry(v: &[usize]) -> HashMap<usize, usize> { let mut m = HashMap::new(); for x in v { *m.entry(*x).or_insert(0) += 1; } m }
pub fn b_entry(v: &[usize]) -> HashMap<usize, usize> { let mut m: HashMap<usize, usize> = HashMap::new(); for x in v { match m.get_mut(x) { Some(c) => { *c += 1; } None => { m.insert(*x, 1); } } } m }
pub fn a_entry2(v: &[usize]) -> HashMap<usize, usize> { let mut m = HashMap::new(); for x in v { *m.entry(*x).or_default() += 1; } m }
pub fn b_entry2(v: &[usize]) -> HashMap<usize, usize> { let mut m: HashMap<usize, usize> = HashMap::new(); for x in v { m.entry(*x).and_modify(|c| *c += 1).or_insert(1); } m }
pub fn a_entry3(v: &[usize]) -> HashMap<usize, usize> { a_entry(v) }
pub fn b_entry3(v: &[usize]) -> HashMap<usize, usize> { let mut m: HashMap<usize, usize> = HashMap::new(); for x in v { let c = m.get(x).copied().unwrap_or(0); m.insert(*x, c + 1); } m }
pub fn a_entry4(v: &[usize]) -> HashMap<usize, usize> { a_entry(v) }
pub fn b_entry4(v: &[usize]) -> HashMap<usize, usize> { let mut m: HashMap<usize, usize> = HashMap::new(); for x in v { if let Some(c) = m.get_mut(x) { *c += 1; continue; } m.insert(*x, 1); } m }
pub fn a_entry5(v: &[usize]) -> HashMap<usize, usize> { a_entry(v) }
pub fn b_entry5(v: &[usize]) -> HashMap<usize, usize> { use std::collections::hash_map::Entry; let mut m: HashMap<usize, usize> = HashMap::new(); for x in v { match m.entry(*x) { Entry::Occupied(mut o) => { *o.get_mut() += 1; } Entry::Vacant(e) => { e.insert(1); } } } m }
pub fn a_group(v: &[(usize, f64)]) -> HashMap<usize, Vec<f64>> { let mut m: HashMap<usize, Vec<f64>> = HashMap::new(); for (k, x) in v { m.entry(*k).or_insert_with(Vec::new).push(*x); } m }
pub fn b_group(v: &[(usize, f64)]) -> HashMap<usize, Vec<f64>> { let mut m: HashMap<usize, Vec<f64>> = HashMap::new(); for (k, x) in v { if !m.contains_key(k) { m.insert(*k, vec![]); } m.get_mut(k).unwrap().push(*x); } m }
pub fn a_group2(v: &[(usize, f64)]) -> HashMap<usize, Vec<f64>> { a_group(v) }
pub fn b_group2(v: &[(usize, f64)]) -> HashMap<usize, Vec<f64>> { let mut m: HashMap<usize, Vec<f64>> = HashMap::new(); for (k, x) in v { match m.get_mut(k) { Some(l) => l.push(*x), None => { m.insert(*k, vec![*x]); } } } m }
pub fn a_uniq(v: &[usize]) -> HashSet<usize> { v.iter().cloned().collect() }
pub fn b_uniq(v: &[usize]) -> HashSet<usize> { let mut s = HashSet::new(); for x in v { if !s.contains(x) { s.insert(*x); } } s }
pub fn a_extend(v: &[usize]) -> HashSet<usize> { let mut s = HashSet::new(); s.extend(v.iter()); s.into_iter().cloned().collect() }
pub fn b_extend(v: &[usize]) -> HashSet<usize> { v.iter().cloned().collect() }
pub fn a_last(v: &[f64]) -> Option<&f64> { v.iter().last() }
pub fn b_last(v: &[f64]) -> Option<&f64> { if v.is_empty() { None } else { Some(&v[v.len() - 1]) } }
pub fn a_reduce(v: &[f64]) -> f64 { v.iter().cloned().reduce(|a, b| a + b).unwrap_or(0.) }
pub fn b_reduce(v: &[f64]) -> f64 { let mut s = 0.; for x in v { s += x } s }
pub fn a_optmap(x: Option<f64>) -> f64 { x.map_or(0., |y| y + 1.) }
pub fn b_optmap(x: Option<f64>) -> f64 { if let Some(y) = x { y + 1. } else { 0. } }
pub fn a_optret(x: Option<f64>, z: f64) -> Option<f64> { let y = x?; Some(y + z) }
pub fn b_optret(x: Option<f64>, z: f64) -> Option<f64> { match x { None => None, Some(y) => Some(z + y) } }
pub fn a_letelse(x: Option<f64>) -> f64 { let Some(y) = x else { return 3. }; y }
pub fn b_letelse(x: Option<f64>) -> f64 { x.unwrap_or(3.) }
pub fn a_matchs(s: &str) -> usize { match s { "a" => 1, "b" => 2, _ => 0 } }
pub fn b_matchs(s: &str) -> usize { if s == "b" { 2 } else if s.eq("a") { 1 } else { 0 } }
pub fn a_slicepat(v: &[f64]) -> f64 { match v { [] => 0., [x] => *x, [x, .., y] => x + y } }
pub fn b_slicepat(v: &[f64]) -> f64 { if v.len() == 0 { 0. } else if v.len() == 1 { v[0] } else { v[0] + v[v.len() - 1] } }
pub fn a_guard(x: f64) -> f64 { match x { y if y > 0. => y, y if y < 0. => -y, _ => 0. } }
pub fn b_guard(x: f64) -> f64 { if x > 0. { x } else if x < 0. { -x } else { 0. } }
pub fn a_string(v: &[usize]) -> String { let mut s = String::new(); for x in v { s.push_str(&format!("{} ", x)); } s }
pub fn b_string(v: &[usize]) -> String { v.iter().map(|x| format!("{} ", x)).collect::<Vec<String>>().concat() }
pub fn a_string2(v: &[usize]) -> String { a_string(v) }
pub fn b_string2(v: &[usize]) -> String { v.iter().map(|x| format!("{} ", x)).collect() }
pub fn a_string3(v: &[usize]) -> String { a_string(v) }
pub fn b_string3(v: &[usize]) -> String { use std::fmt::Write; let mut s = String::new(); for x in v { write!(s, "{}", x).unwrap(); s += " "; } s }
pub fn a_join(v: &[usize]) -> String { v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ") }
pub fn b_join(v: &[usize]) -> String { let mut s = String::new(); for (i, x) in v.iter().enumerate() { if i > 0 { s.push_str(", "); } s += &x.to_string(); } s }
pub fn a_sorted(v: &[usize]) -> Vec<usize> { let mut w = v.to_vec(); w.sort(); w }
pub fn b_sorted(v: &[usize]) -> Vec<usize> { let mut w: Vec<usize> = v.iter().copied().collect(); w.sort_unstable(); w }
pub fn a_sortby(v: &[(usize, f64)]) -> Vec<(usize, f64)> { let mut w = v.to_vec(); w.sort_by(|a, b| a.0.cmp(&b.0)); w }
pub fn b_sortby(v: &[(usize, f64)]) -> Vec<(usize, f64)> { let mut w = v.to_vec(); w.sort_by_key(|a| a.0); w }
pub fn a_btree(v: &[(usize, f64)]) -> Vec<usize> { let m: BTreeMap<usize, f64> = v.iter().cloned().collect(); m.keys().cloned().collect() }
pub fn b_btree(v: &[(usize, f64)]) -> Vec<usize> { let s: BTreeSet<usize> = v.iter().map(|x| x.0).collect(); s.into_iter().collect() }
pub fn a_while(v: &[f64]) -> f64 { let mut s = 0.; let mut i = v.len(); while i > 0 { i -= 1; s += v[i]; } s }
pub fn b_while(v: &[f64]) -> f64 { v.iter().sum() }
pub fn a_loop(v: &[f64]) -> f64 { let mut it = v.iter(); let mut s = 0.; loop { match it.next() { Some(x) => s += x, None => break } } s }
pub fn b_loop(v: &[f64]) -> f64 { v.iter().sum() }
pub fn a_whilelet(v: &[f64]) -> f64 { let mut it = v.iter().peekable(); let mut s = 0.; while let Some(x) = it.next() { s += x } s }
pub fn b_whilelet(v: &[f64]) -> f64 { v.iter().sum() }
pub fn a_nested(n: usize, m: usize, v: &[f64]) -> Vec<f64> { let mut o = vec![0.; n]; for i in 0..n { for j in 0..m { o[i] += v[i * m + j]; } } o }
pub fn b_nested(n: usize, m: usize, v: &[f64]) -> Vec<f64> { (0..n).map(|i| (0..m).map(|j| v[i * m + j]).sum()).collect() }
pub fn a_iterfrom(v: &[f64]) -> Vec<f64> { std::iter::once(1.).chain(v.iter().cloned()).collect() }
pub fn b_iterfrom(v: &[f64]) -> Vec<f64> { let mut o = vec![1.]; o.extend_from_slice(v); o }
pub fn a_repeat(n: usize) -> Vec<f64> { std::iter::repeat(2.).take(n).collect() }
pub fn b_repeat(n: usize) -> Vec<f64> { vec![2.; n] }
pub fn a_fromfn(n: usize) -> Vec<usize> { let mut v = Vec::with_capacity(n); v.resize_with(n, Default::default); v }
pub fn b_fromfn(n: usize) -> Vec<usize> { vec![0; n] }
pub fn a_array(x: f64) -> f64 { let a = [x, 2. * x, 3.]; a.iter().sum() }
pub fn b_array(x: f64) -> f64 { 3. * x + 3. }
pub fn a_tuple(x: (f64, f64)) -> (f64, f64) { let (a, b) = x; (b, a) }
pub fn b_tuple(x: (f64, f64)) -> (f64, f64) { (x.1, x.0) }
pub fn a_swap(mut x: f64, mut y: f64) -> (f64, f64) { std::mem::swap(&mut x, &mut y); (x, y) }
pub fn b_swap(x: f64, y: f64) -> (f64, f64) { (y, x) }
pub fn a_replace(mut v: Vec<f64>) -> (Vec<f64>, Vec<f64>) { let o = std::mem::replace(&mut v, vec![1.]); (o, v) }
pub fn b_replace(v: Vec<f64>) -> (Vec<f64>, Vec<f64>) { (v, vec![1.]) }
pub fn a_closure(v: &[f64]) -> f64 { let f = |x: f64| x * x + 1.; v.iter().map(|x| f(*x)).sum() }
pub fn b_closure(v: &[f64]) -> f64 { let mut s = 0.; for x in v { s += x * x + 1. } s }
pub fn a_closuremut(v: &[f64]) -> Vec<f64> { let mut o = vec![]; let mut add = |x: f64| o.push(x); for x in v { add(*x); } o }
pub fn b_closuremut(v: &[f64]) -> Vec<f64> { v.to_vec() }
fn rec(v: &[f64], i: usize, o: &mut Vec<f64>) { if i < v.len() { o.push(v[i]); } }
pub fn a_helper(v: &[f64]) -> Vec<f64> { let mut o = vec![]; for i in 0..v.len() { rec(v, i, &mut o) } o }
pub fn b_helper(v: &[f64]) -> Vec<f64> { v.to_vec() }
pub fn a_iflet(x: Option<f64>, y: Option<f64>) -> f64 { if let (Some(a), Some(b)) = (x, y) { a + b } else { 0. } }
pub fn b_iflet(x: Option<f64>, y: Option<f64>) -> f64 { match x { Some(a) => match y { Some(b) => a + b, None => 0. }, None => 0. } }
pub fn a_zipo(x: Option<f64>, y: Option<f64>) -> f64 { x.zip(y).map(|(a, b)| a + b).unwrap_or_default() }
pub fn b_zipo(x: Option<f64>, y: Option<f64>) -> f64 { a_iflet(x, y) }
pub fn a_matches(x: Option<f64>) -> bool { matches!(x, Some(y) if y > 0.) }
pub fn b_matches(x: Option<f64>) -> bool { x.is_some_and(|y| y > 0.) }
pub fn a_labeled(v: &[f64], w: &[f64]) -> bool { 'o: for x in v { for y in w { if x == y { continue 'o } } return false } true }
pub fn b_labeled(v: &[f64], w: &[f64]) -> bool { v.iter().all(|x| w.iter().any(|y| x == y)) }
pub fn a_flags(v: &[f64]) -> bool { let mut found = false; for x in v { if *x > 1. { found = true; break } } found }
pub fn b_flags(v: &[f64]) -> bool { v.iter().any(|x| *x > 1.) }
pub fn a_minmax(v: &[f64]) -> f64 { v.iter().cloned().fold(f64::NEG_INFINITY, f64::max) }
pub fn b_minmax(v: &[f64]) -> f64 { let mut m = f64::NEG_INFINITY; for x in v { m = m.max(*x); } m }
pub fn a_split(s: &str) -> Option<(String, String)> { let mut it = s.split(':'); let a = it.next()?; let b = it.next()?; Some((a.to_string(), b.to_string())) }
pub fn b_split(s: &str) -> Option<(String, String)> { let p: Vec<&str> = s.split(':').collect(); if p.len() < 2 { return None } Some((p[0].to_string(), p[1].to_owned())) }
pub fn a_words(s: &str) -> Option<f64> { s.split_whitespace().nth(1).and_then(|x| x.parse().ok()) }
pub fn b_words(s: &str) -> Option<f64> { let w: Vec<&str> = s.split_whitespace().collect(); match w.get(1) { Some(x) => match x.parse::<f64>() { Ok(y) => Some(y), Err(_) => None }, None => None } }
pub fn a_index(v: &[f64]) -> HashMap<usize, usize> { let mut m = HashMap::new(); let mut i = 0; for _ in v { m.insert(i, i + 1); i += 1; } m }
pub fn b_index(v: &[f64]) -> HashMap<usize, usize> { (0..v.len()).map(|i| (i, i + 1)).collect() }
pub fn a_first(v: &[f64]) -> f64 { *v.first().unwrap() }
pub fn b_first(v: &[f64]) -> f64 { v[0] }
pub fn a_mutiter(mut v: Vec<f64>) -> Vec<f64> { for x in v.iter_mut() { *x *= 2. } v }
pub fn b_mutiter(v: Vec<f64>) -> Vec<f64> { v.into_iter().map(|x| x * 2.).collect() }
pub fn a_mutidx(mut v: Vec<f64>) -> Vec<f64> { let n = v.len(); for i in 0..n { v[i] = v[i] * 2. } v }
pub fn b_mutidx(v: Vec<f64>) -> Vec<f64> { v.into_iter().map(|x| x * 2.).collect() }
pub fn a_zipmut(mut v: Vec<f64>, w: &[f64]) -> Vec<f64> { if v.len() != w.len() { return v } for (x, y) in v.iter_mut().zip(w.iter()) { *x += y } v }
pub fn b_zipmut(v: Vec<f64>, w: &[f64]) -> Vec<f64> { if v.len() != w.len() { return v } let mut o = Vec::new(); for i in 0..v.len() { o.push(v[i] + w[i]) } o }
pub fn a_mapget(m: &HashMap<usize, f64>, k: usize) -> f64 { if m.contains_key(&k) { m[&k] } else { 0. } }
pub fn b_mapget(m: &HashMap<usize, f64>, k: usize) -> f64 { *m.get(&k).unwrap_or(&0.) }
pub fn a_cmp(a: f64, b: f64) -> i32 { match a.partial_cmp(&b) { Some(std::cmp::Ordering::Less) => -1, Some(std::cmp::Ordering::Greater) => 1, _ => 0 } }
pub fn b_cmp(a: f64, b: f64) -> i32 { if a < b { -1 } else if a > b { 1 } else { 0 } }
pub fn a_cmpi(a: usize, b: usize) -> i32 { match a.cmp(&b) { std::cmp::Ordering::Less => -1, std::cmp::Ordering::Equal => 0, _ => 1 } }
pub fn b_cmpi(a: usize, b: usize) -> i32 { if a < b { -1 } else if a == b { 0 } else { 1 } }
pub fn a_then(x: f64) -> Option<f64> { (x > 0.).then(|| x * 2.) }
pub fn b_then(x: f64) -> Option<f64> { if x > 0. { Some(2. * x) } else { None } }
pub fn a_thens(x: f64) -> Option<f64> { (x > 0.).then_some(x) }
pub fn b_thens(x: f64) -> Option<f64> { Some(x).filter(|y| *y > 0.) }
pub fn a_flatopt(v: &[Option<f64>]) -> Vec<f64> { v.iter().flatten().cloned().collect() }
pub fn b_flatopt(v: &[Option<f64>]) -> Vec<f64> { let mut o = vec![]; for x in v { if let Some(y) = x { o.push(*y) } } o }
pub fn a_count(v: &[f64]) -> usize { v.iter().filter(|x| **x > 0.).count() }
pub fn b_count(v: &[f64]) -> usize { let mut n = 0; for x in v { if *x > 0. { n += 1 } } n }
pub fn a_count2(v: &[f64]) -> usize { v.iter().map(|x| if *x > 0. { 1 } else { 0 }).sum() }
pub fn b_count2(v: &[f64]) -> usize { v.iter().map(|x| (*x > 0.) as usize).sum() }
pub fn a_isnum(s: &str) -> bool { s.parse::<f64>().is_ok() }
pub fn b_isnum(s: &str) -> bool { if let Ok(_) = s.parse::<f64>() { true } else { false } }
pub fn a_inspect(v: &[f64]) -> Vec<f64> { v.iter().inspect(|_| ()).cloned().collect() }
pub fn b_inspect(v: &[f64]) -> Vec<f64> { v.to_vec() }
pub fn a_maxby(v: &[f64]) -> Option<f64> { v.iter().cloned().max_by(|a, b| a.partial_cmp(b).unwrap()) }
pub fn b_maxby(v: &[f64]) -> Option<f64> { let mut m: Option<f64> = None; for x in v { m = Some(match m { None => *x, Some(y) => if y > *x { y } else { *x } }) } m }
pub fn x_sum(v: &[f64]) -> f64 { v.iter().sum() }
pub fn y_sum(v: &[f64]) -> f64 { v.iter().skip(1).sum() }
pub fn x_order(v: &[f64]) -> Vec<f64> { v.to_vec() }
pub fn y_order(v: &[f64]) -> Vec<f64> { v.iter().rev().cloned().collect() }
pub fn x_map(v: &[(usize, f64)]) -> HashMap<usize, f64> { v.iter().cloned().collect() }
pub fn y_map(v: &[(usize, f64)]) -> HashMap<usize, f64> { let mut m = HashMap::new(); for (k, x) in v { m.entry(*k).or_insert(*x); } m }
pub fn x_lt(v: &[f64]) -> usize { v.iter().filter(|x| **x > 0.).count() }
pub fn y_lt(v: &[f64]) -> usize { v.iter().filter(|x| !(**x <= 0.)).count() }
pub fn a_labeled2(v: &[f64], w: &[f64]) -> usize { let mut n = 0; 'o: for x in v { for y in w { if y == x { continue 'o } if *y < 0. { break 'o } } n += 1 } n }
pub fn b_labeled2(v: &[f64], w: &[f64]) -> usize { let mut n = 0; for x in v { let mut skip = false; let mut stop = false; for y in w { if y == x { skip = true; break } if *y < 0. { stop = true; break } } if stop { break } if !skip { n += 1 } } n }
pub fn x_labeled2(v: &[f64], w: &[f64]) -> usize { let mut n = 0; 'o: for x in v { for y in w { if y == x { break 'o } } n += 1 } n }
pub fn y_labeled2(v: &[f64], w: &[f64]) -> usize { let mut n = 0; 'o: for x in v { for y in w { if y == x { continue 'o } } n += 1 } n }
pub fn a_lblock(x: f64) -> f64 { let y = 'b: { if x > 0. { break 'b x * 2. } if x < -1. { break 'b 3. } x }; y + 1. }
pub fn b_lblock(x: f64) -> f64 { if x > 0. { 2. * x + 1. } else if x < -1. { 4. } else { x + 1. } }
pub fn a_lblock2(v: &[f64]) -> f64 { 'b: { for x in v { if *x > 1. { break 'b *x } } 0. } }
pub fn b_lblock2(v: &[f64]) -> f64 { for x in v { if *x > 1. { return *x } } 0. }
pub fn x_lblock(x: f64) -> f64 { let y = 'b: { if x > 0. { break 'b x * 2. } x }; y + 1. }
pub fn y_lblock(x: f64) -> f64 { x + 1. }

// arrays of options as markers
pub fn a_opt_mark(ks: &[usize]) -> Vec<Option<usize>> {
    let mut seen: Vec<Option<usize>> = vec![None; 4];
    for (i, k) in ks.iter().enumerate() {
        if seen[*k] != Some(i) { seen[*k] = Some(i); }
    }
    seen
}
pub fn b_opt_mark(ks: &[usize]) -> Vec<Option<usize>> {
    let mut seen: Vec<Option<usize>> = vec![None; 4];
    for (i, k) in ks.iter().enumerate() {
        seen[*k] = Some(i);
    }
    seen
}
pub fn a_opt_eq(a: Option<usize>, i: usize) -> bool { a == Some(i) }
pub fn b_opt_eq(a: Option<usize>, i: usize) -> bool { match a { Some(x) => x == i, None => false } }
pub fn a_opt_first(ks: &[usize], n: usize) -> usize {
    let mut seen: Vec<Option<usize>> = vec![None; n];
    let mut c = 0;
    for k in ks.iter() {
        if seen[*k] != Some(0) { c += 1; }
        seen[*k] = Some(0);
    }
    c
}
pub fn b_opt_first(ks: &[usize], n: usize) -> usize {
    let mut seen: Vec<bool> = vec![false; n];
    let mut c = 0;
    for k in ks.iter() {
        if !seen[*k] { c += 1; }
        seen[*k] = true;
    }
    c
}

// the last of the kept elements, none kept, one kept
pub fn a_popkept(xs: &[f64], k: f64) -> f64 {
    let mut c = k;
    let mut v: Vec<f64> = Vec::new();
    for x in xs.iter() { if *x < 0. { c += *x; } else { v.push(*x); } }
    if v.is_empty() { return c; }
    if c != 0. { v.push(c); }
    if v.len() > 1 { return v.iter().sum(); }
    v.pop().unwrap()
}
pub fn b_popkept(xs: &[f64], k: f64) -> f64 {
    let mut c = k;
    let mut v: Vec<f64> = Vec::new();
    for x in xs.iter() { if *x < 0. { c += *x; } else { v.push(*x); } }
    if v.is_empty() { return c; }
    if c != 0. { v.push(c); }
    if v.len() == 1 { return v.remove(0); }
    v.iter().sum()
}
pub fn a_onekept(xs: &[f64]) -> f64 {
    let v: Vec<f64> = xs.iter().filter(|x| **x < 0.).map(|x| *x).collect();
    if v.len() == 1 { return v[0]; }
    v.iter().sum()
}
pub fn b_onekept(xs: &[f64]) -> f64 {
    let v: Vec<f64> = xs.iter().filter(|x| **x < 0.).map(|x| *x).collect();
    v.iter().sum()
}

// elements of nested sequences one after the other
pub fn a_flatenum(h: &[Vec<f64>], o: &mut Vec<f64>) { for (k, x) in h.iter().flat_map(|r| r.iter()).enumerate() { o[k] = *x; } }
pub fn b_flatenum(h: &[Vec<f64>], o: &mut Vec<f64>) { let mut k = 0; for r in h { for x in r { o[k] = *x; k += 1; } } }
pub fn a_flatzip(h: &[Vec<f64>], c: &[f64]) -> f64 { h.iter().flatten().zip(c.iter()).map(|(x, y)| x * y).sum() }
pub fn b_flatzip(h: &[Vec<f64>], c: &[f64]) -> f64 { let v: Vec<f64> = h.iter().flatten().cloned().collect(); let mut s = 0.; for i in 0..v.len().min(c.len()) { s += v[i] * c[i]; } s }
pub fn x_flatenum(h: &[Vec<f64>], o: &mut Vec<f64>) { a_flatenum(h, o) }
pub fn y_flatenum(h: &[Vec<f64>], o: &mut Vec<f64>) { let mut k = 0; for r in h { for x in r { o[k] = *x; } k += 1; } }
pub fn a_concat(h: &[Vec<f64>]) -> Vec<f64> { h.concat() }
pub fn b_concat(h: &[Vec<f64>]) -> Vec<f64> { let mut o = Vec::new(); for r in h { o.extend_from_slice(r); } o }
pub fn a_append(mut a: Vec<f64>, mut b: Vec<f64>) -> Vec<f64> { a.append(&mut b); a }
pub fn b_append(mut a: Vec<f64>, b: Vec<f64>) -> Vec<f64> { for x in b { a.push(x) } a }
pub fn a_resize(n: usize) -> Vec<f64> { let mut v = Vec::new(); v.resize(n, 1.); v }
pub fn b_resize(n: usize) -> Vec<f64> { vec![1.; n] }
pub fn a_fill(mut v: Vec<f64>) -> Vec<f64> { v.fill(0.); v }
pub fn b_fill(v: Vec<f64>) -> Vec<f64> { vec![0.; v.len()] }
pub fn a_unzip(v: Vec<(usize, f64)>) -> (Vec<usize>, Vec<f64>) { v.into_iter().unzip() }
pub fn b_unzip(v: Vec<(usize, f64)>) -> (Vec<usize>, Vec<f64>) { let (mut a, mut b) = (vec![], vec![]); for (x, y) in v { a.push(x); b.push(y); } (a, b) }
pub fn a_foldt(v: &[f64]) -> (f64, usize) { v.iter().fold((0., 0), |(s, n), x| (s + x, n + 1)) }
pub fn b_foldt(v: &[f64]) -> (f64, usize) { (v.iter().sum(), v.len()) }
pub fn a_mapor(x: Option<&f64>) -> f64 { x.map_or(0., |v| *v) }
pub fn b_mapor(x: Option<&f64>) -> f64 { match x { Some(v) => *v, None => 0. } }
pub fn a_andthen(m: &HashMap<usize, usize>, k: usize) -> Option<usize> { m.get(&k).and_then(|j| m.get(j)).copied() }
pub fn b_andthen(m: &HashMap<usize, usize>, k: usize) -> Option<usize> { let j = m.get(&k)?; match m.get(j) { Some(i) => Some(*i), None => None } }
pub fn a_filter_opt(x: Option<f64>) -> Option<f64> { x.filter(|v| *v > 0.) }
pub fn b_filter_opt(x: Option<f64>) -> Option<f64> { match x { Some(v) if v > 0. => Some(v), _ => None } }
pub fn a_take_opt(x: &mut Option<f64>) -> f64 { x.take().unwrap_or(1.) }
pub fn b_take_opt(x: &mut Option<f64>) -> f64 { let r = match *x { Some(v) => v, None => 1. }; *x = None; r }
pub fn a_getorins(m: &mut HashMap<usize, f64>, k: usize, v: f64) { *m.entry(k).or_insert(0.) += v; }
pub fn b_getorins(m: &mut HashMap<usize, f64>, k: usize, v: f64) { match m.get_mut(&k) { Some(x) => *x += v, None => { m.insert(k, v); } } }
pub fn a_getorins2(m: &mut HashMap<usize, f64>, k: usize, v: f64) { m.entry(k).and_modify(|x| *x += v).or_insert(v); }
pub fn b_getorins2(m: &mut HashMap<usize, f64>, k: usize, v: f64) { let o = m.get(&k).copied().unwrap_or(0.); m.insert(k, o + v); }
pub fn a_accum(v: &[(usize, f64)]) -> HashMap<usize, f64> { let mut m = HashMap::new(); for (k, x) in v { *m.entry(*k).or_insert(0.) += x; } m }
pub fn b_accum(v: &[(usize, f64)]) -> HashMap<usize, f64> { let mut m: HashMap<usize, f64> = HashMap::new(); for (k, x) in v.iter() { if let Some(y) = m.get_mut(k) { *y += *x; } else { m.insert(*k, *x); } } m }
pub fn a_mapvals(m: &HashMap<usize, f64>) -> HashMap<usize, f64> { m.iter().map(|(k, v)| (*k, 2. * v)).collect() }
pub fn b_mapvals(m: &HashMap<usize, f64>) -> HashMap<usize, f64> { let mut o = m.clone(); for v in o.values_mut() { *v *= 2.; } o }
pub fn x_mapvals(m: &HashMap<usize, f64>) -> HashMap<usize, f64> { a_mapvals(m) }
pub fn y_mapvals(m: &HashMap<usize, f64>) -> HashMap<usize, f64> { let mut o = m.clone(); for (k, v) in o.iter_mut() { if *k > 0 { *v *= 2.; } } o }
pub fn a_subset(m: &HashMap<usize, f64>, ks: &[usize]) -> Vec<f64> { ks.iter().filter_map(|k| m.get(k)).cloned().collect() }
pub fn b_subset(m: &HashMap<usize, f64>, ks: &[usize]) -> Vec<f64> { let mut o = vec![]; for k in ks { if m.contains_key(k) { o.push(m[k]); } } o }
pub fn a_scaled(v: &mut [f64], c: f64) { v.iter_mut().for_each(|x| *x *= c); }
pub fn b_scaled(v: &mut [f64], c: f64) { let mut i = 0; loop { if i >= v.len() { break; } v[i] = c * v[i]; i += 1; } }
pub fn a_dot(a: &[f64], b: &[f64]) -> f64 { assert_eq!(a.len(), b.len()); a.iter().zip(b).map(|(x, y)| x * y).sum() }
pub fn b_dot(a: &[f64], b: &[f64]) -> f64 { assert!(a.len() == b.len()); (0..a.len()).fold(0., |s, i| s + a[i] * b[i]) }
pub fn a_absdiff(a: &[f64], b: &[f64]) -> f64 { let mut m: f64 = 0.; for (x, y) in a.iter().zip(b.iter()) { m = m.max((x - y).abs()); } m }
pub fn b_absdiff(a: &[f64], b: &[f64]) -> f64 { a.iter().zip(b.iter()).map(|(x, y)| (x - y).abs()).fold(0., |m: f64, d| m.max(d)) }
pub fn a_revidx(v: &[f64]) -> Vec<f64> { (0..v.len()).rev().map(|i| v[i]).collect() }
pub fn b_revidx(v: &[f64]) -> Vec<f64> { let mut o = v.to_vec(); o.reverse(); o }
pub fn a_lower(v: &[(usize, usize)]) -> Vec<(usize, usize)> { v.iter().map(|&(i, j)| (i.max(j), i.min(j))).collect() }
pub fn b_lower(v: &[(usize, usize)]) -> Vec<(usize, usize)> { let mut o = vec![]; for (i, j) in v { if j > i { o.push((*j, *i)); } else { o.push((*i, *j)); } } o }
pub fn a_swapmem(a: &mut Vec<f64>, b: &mut Vec<f64>) { std::mem::swap(a, b); }
pub fn b_swapmem(a: &mut Vec<f64>, b: &mut Vec<f64>) { let t = std::mem::take(a); *a = std::mem::replace(b, t); }
pub fn a_minby(v: &[f64], l: f64) -> f64 { let mut r = l; for x in v { if *x < r { r = *x; } } r }
pub fn b_minby(v: &[f64], l: f64) -> f64 { v.iter().copied().fold(l, f64::min) }
pub fn a_nth(s: &str) -> Option<f64> { s.split_whitespace().nth(2).and_then(|w| w.parse().ok()) }
pub fn b_nth(s: &str) -> Option<f64> { let w: Vec<&str> = s.split_whitespace().collect(); if w.len() > 2 { w[2].parse::<f64>().ok() } else { None } }
pub fn a_lines(s: &str) -> usize { s.lines().filter(|l| l.starts_with("x")).count() }
pub fn b_lines(s: &str) -> usize { let mut n = 0; for l in s.lines() { if !l.starts_with("x") { continue; } n += 1; } n }
pub fn a_ranges(n: usize, m: usize) -> Vec<(usize, usize)> { let mut o = vec![]; for i in 0..n { for j in 0..m { if j <= i { o.push((i, j)); } } } o }
pub fn b_ranges(n: usize, m: usize) -> Vec<(usize, usize)> { (0..n).flat_map(|i| (0..m).filter(move |j| *j <= i).map(move |j| (i, j))).collect() }
pub fn a_incl(n: usize) -> usize { let mut s = 0; for i in 1..=n { s += i; } s }
pub fn b_incl(n: usize) -> usize { (0..n + 1).sum() }
pub fn a_sortname(mut v: Vec<String>) -> Vec<String> { v.sort(); v }
pub fn b_sortname(mut v: Vec<String>) -> Vec<String> { v.sort_by(|a, b| a.cmp(b)); v }
pub fn a_bits(x: bool, y: bool) -> u8 { (if x { 1 } else { 0 }) + (if y { 2 } else { 0 }) }
pub fn b_bits(x: bool, y: bool) -> u8 { match (x, y) { (true, true) => 3, (false, true) => 2, (true, false) => 1, _ => 0 } }
pub struct P { a: Vec<f64>, b: Option<Vec<f64>>, n: usize }
pub fn a_upd(p: P) -> P { P { n: p.a.len(), ..p } }
pub fn b_upd(mut p: P) -> P { p.n = p.a.len(); p }
pub fn a_asref(p: &P) -> &[f64] { p.b.as_ref().map(|v| v.as_slice()).unwrap_or(&[]) }
pub fn b_asref(p: &P) -> &[f64] { match &p.b { Some(v) => &v[..], None => &[] } }
pub fn a_asderef(p: &P) -> Option<&[f64]> { p.b.as_deref() }
pub fn b_asderef(p: &P) -> Option<&[f64]> { if let Some(v) = &p.b { Some(v) } else { None } }
pub fn x_keptlast(v: Vec<(usize, f64)>) -> Vec<(usize, f64)> { let mut o: Vec<(usize, f64)> = vec![]; for x in v { if o.len() > 0 { if x.0 == o[o.len() - 1].0 && x.0 > 0 { } else { o.push(x) } } else { o = vec![x]; } } o }
pub fn y_keptlast(v: Vec<(usize, f64)>) -> Vec<(usize, f64)> { vec![] }
pub fn x_keptlast2(v: Vec<(usize, f64)>) -> Vec<(usize, f64)> { let mut o: Vec<(usize, f64)> = vec![]; for x in v { if o.len() > 0 { if x.0 == o[o.len() - 1].0 && x.0 > 0 { } else { o.push(x) } } else { o.push(x); } } o }
pub fn y_keptlast2(v: Vec<(usize, f64)>) -> Vec<(usize, f64)> { vec![] }

// range patterns, bounds of a running position, one walk over two sequences
pub fn a_rangepat(k: i32) -> u8 { match k { 0..=1 => 1, 2.. => 2, _ => 3 } }
pub fn b_rangepat(k: i32) -> u8 { if k < 0 { 3 } else if k < 2 { 1 } else { 2 } }
pub fn x_rangepat(k: i32) -> u8 { match k { 0..=1 => 1, _ => 3 } }
pub fn y_rangepat(k: i32) -> u8 { if k <= 1 { 1 } else { 3 } }
pub fn a_chainat(a: &[f64], b: &[f64]) -> Vec<f64> { let n = a.len() + b.len(); (0..n).map(|k| if k < a.len() { a[k] } else { b[k - a.len()] }).collect() }
pub fn b_chainat(a: &[f64], b: &[f64]) -> Vec<f64> { let mut v = a.to_vec(); v.extend(b.iter().cloned()); v }
pub fn x_chainat(a: &[f64], b: &[f64]) -> Vec<f64> { let n = a.len() + b.len(); (0..n).map(|k| if k <= a.len() { a[k] } else { b[k - a.len()] }).collect() }
pub fn y_chainat(a: &[f64], b: &[f64]) -> Vec<f64> { let mut v = a.to_vec(); v.extend(b.iter().cloned()); v }
pub fn a_runpos(h: &[Vec<f64>], n: usize) -> bool { let mut k = 0; for r in h { for _ in r { if k >= n { return true; } k += 1; } } false }
pub fn b_runpos(h: &[Vec<f64>], n: usize) -> bool { let mut t = 0; for r in h { t += r.len(); } t > n }
pub fn x_runpos(h: &[Vec<f64>], n: usize) -> bool { a_runpos(h, n) }
pub fn y_runpos(h: &[Vec<f64>], n: usize) -> bool { let mut t = 0; for r in h { t += r.len(); } t >= n }
pub fn a_tworefs(x: &mut Vec<f64>, y: &mut Vec<f64>, i: usize, m: f64) { if m > 0. { x[i] = m; } else { y[i] = -m; } }
pub fn b_tworefs(x: &mut Vec<f64>, y: &mut Vec<f64>, i: usize, m: f64) { let (t, a) = if m > 0. { (x, m) } else { (y, -m) }; t[i] = a; }
pub fn a_tworefs_loop(x: &mut Vec<f64>, y: &mut Vec<f64>, v: &[(usize, f64)]) { for (i, m) in v { if *i < x.len() && *i < y.len() { if *m > 0. { x[*i] = *m; } else { y[*i] = -*m; } } } }
pub fn b_tworefs_loop(x: &mut Vec<f64>, y: &mut Vec<f64>, v: &[(usize, f64)]) { for &(i, m) in v { if i < x.len() && i < y.len() { let (t, a) = if m > 0. { (&mut *x, m) } else { (&mut *y, -m) }; t[i] = a; } } }
pub enum SetKind { I(i32), F(f64), S(String) }
pub fn a_setcase(v: &mut SetKind, w: SetKind) -> bool { match (&mut *v, w) { (SetKind::I(x), SetKind::I(y)) => { *x = y; true } (SetKind::F(x), SetKind::F(y)) => { *x = y; true } (SetKind::S(x), SetKind::S(y)) => { *x = y; true } _ => false } }
pub fn b_setcase(v: &mut SetKind, w: SetKind) -> bool { let same = matches!((&*v, &w), (SetKind::I(_), SetKind::I(_)) | (SetKind::F(_), SetKind::F(_)) | (SetKind::S(_), SetKind::S(_))); if same { *v = w; } same }
pub fn a_emptypat(s: &str) -> usize { match s { "" => 0, "a" => 1, _ => 2 } }
pub fn b_emptypat(s: &str) -> usize { if s.is_empty() { 0 } else if s == "a" { 1 } else { 2 } }
pub fn a_sameobj(x: &std::rc::Rc<String>, y: &std::rc::Rc<String>) -> bool { std::rc::Rc::ptr_eq(x, y) }
pub fn b_sameobj(x: &std::rc::Rc<String>, y: &std::rc::Rc<String>) -> bool { std::rc::Rc::as_ptr(x) == y.as_ref() as *const String }
