//! C18–C24: the genetic algorithm, its operators, generated parameters and their evaluation.
use juno::genetics::crossover::*;
use juno::genetics::mutation::*;
use juno::genetics::reinsertion::*;
use juno::genetics::selection::*;
use juno::genetics::*;
use juno::trading::*;
use juno::{BorrowInfo, Candle, ExchangeInfo, Interval, Timestamp};
use mc::genes;
use mc::rng::*;
use mc::tkit::*;
use mc::util::*;
use mc::*;
use rand::prelude::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

// ---------------------------------------------------------------------------------------------
// A small chromosome: two genes, six genotypes.

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Toy {
    a: u8,
    b: u8,
}

thread_local! {
    /// Six genotypes or 10000.
    static WIDE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn kinds() -> (u8, u8) {
    if WIDE.get() {
        (100, 100)
    } else {
        (3, 2)
    }
}
impl Chromosome for Toy {
    type Context = ();
    fn len() -> usize {
        2
    }
    fn generate(rng: &mut StdRng, _: &()) -> Self {
        Toy { a: rng.gen_range(0..kinds().0), b: rng.gen_range(0..kinds().1) }
    }
    fn cross(&mut self, other: &mut Self, i: usize) {
        match i {
            0 => std::mem::swap(&mut self.a, &mut other.a),
            1 => std::mem::swap(&mut self.b, &mut other.b),
            _ => panic!("gene {i}"),
        }
    }
    fn mutate(&mut self, rng: &mut StdRng, i: usize, _: &()) {
        match i {
            0 => self.a = rng.gen_range(0..kinds().0),
            1 => self.b = rng.gen_range(0..kinds().1),
            _ => panic!("gene {i}"),
        }
    }
}

const TABLES: [[[f64; 2]; 3]; 2] = [
    [[0.0, 1.0], [2.0, 1.0], [1.0, 3.0]],
    [[-1e300, f64::NEG_INFINITY], [-2.0, -2.0], [0.5, -7.0]],
];

struct Table(usize);
impl Table {
    fn fitness(&self, t: &Toy) -> f64 {
        match self.0 {
            2 => ((t.a as u64 * 7919 + t.b as u64 * 104_729) % 10_007) as f64 / 16.0 - 300.0,
            k => TABLES[k][t.a as usize][t.b as usize],
        }
    }
}
impl Evaluation for Table {
    type Chromosome = Toy;
    fn evaluate(&self, population: &mut [Individual<Toy>]) {
        for i in population.iter_mut() {
            i.fitness = self.fitness(&i.chromosome);
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Sel {
    Elite(bool),
    Tournament(f32),
    Random,
}
#[derive(Clone, Copy, Debug)]
enum Rein {
    Elite(f32, f32),
    Fitness(f32),
    Pure,
}

/// What the spies saw: populations as they were handed on.
#[derive(Default)]
struct Seen {
    /// At selection: the whole population.
    parents: Vec<Vec<(Toy, f64)>>,
    /// At reinsertion: how many were bred, with which fitness, and what became of them.
    bred: Vec<Vec<(Toy, f64)>>,
    announced: Vec<(usize, Vec<(Toy, f64)>)>,
}
thread_local! {
    static SEEN: RefCell<Seen> = RefCell::new(Seen::default());
}

/// The population of any chromosome, as that of toys (only toys are used with the spies).
fn pairs<T: Chromosome>(p: &[Individual<T>]) -> Vec<(Toy, f64)> {
    assert_eq!(std::mem::size_of::<T>(), std::mem::size_of::<Toy>());
    p.iter().map(|i| (unsafe { std::mem::transmute_copy::<T, Toy>(&i.chromosome) }, i.fitness)).collect()
}

impl Selection for Sel {
    fn select<T: Chromosome>(&self, rng: &mut StdRng, parents: &[Individual<T>], offsprings: &mut Vec<Individual<T>>, rate: f32, ctx: &T::Context) {
        SEEN.with(|s| s.borrow_mut().parents.push(pairs(parents)));
        match self {
            Sel::Elite(s) => EliteSelection::new(*s).select(rng, parents, offsprings, rate, ctx),
            Sel::Tournament(r) => TournamentSelection::new(*r, true).select(rng, parents, offsprings, rate, ctx),
            Sel::Random => GenerateRandomSelection {}.select(rng, parents, offsprings, rate, ctx),
        }
    }
}
impl Reinsertion for Rein {
    fn selection_rate(&self) -> f32 {
        match self {
            Rein::Elite(s, g) => EliteReinsertion::new(*s, *g).selection_rate(),
            Rein::Fitness(s) => FitnessReinsertion::new(*s).selection_rate(),
            Rein::Pure => PureReinsertion {}.selection_rate(),
        }
    }
    fn reinsert<T: Chromosome>(&self, rng: &mut StdRng, parents: &[Individual<T>], offsprings: &mut Vec<Individual<T>>, n: usize, ctx: &T::Context) {
        SEEN.with(|s| s.borrow_mut().bred.push(pairs(offsprings)));
        match self {
            Rein::Elite(s, g) => EliteReinsertion::new(*s, *g).reinsert(rng, parents, offsprings, n, ctx),
            Rein::Fitness(s) => FitnessReinsertion::new(*s).reinsert(rng, parents, offsprings, n, ctx),
            Rein::Pure => PureReinsertion {}.reinsert(rng, parents, offsprings, n, ctx),
        }
    }
}

fn announce(nr: usize, g: &Generation<Toy>) {
    SEEN.with(|s| s.borrow_mut().announced.push((nr, pairs(&g.hall_of_fame))));
}

struct Setup {
    pop: usize,
    gens: usize,
    hof: usize,
    sel: Sel,
    rein: Rein,
    cross: f32,
    mutate: f32,
    table: usize,
    seed: u64,
}

fn sorted(p: &[(Toy, f64)]) -> bool {
    p.windows(2).all(|w| w[0].1 >= w[1].1)
}

/// Runs an evolution with draws answered by `ch`, or those of a seed, and checks what C18 says about it.
fn evolve(ch: &mut Ch, s: &Setup, menu: impl Into<Option<Menu>>) -> Result<(Vec<Vec<(Toy, f64)>>, Seen), Stop> {
    SEEN.with(|x| *x.borrow_mut() = Seen::default());
    let algo = GeneticAlgorithm::new(Table(s.table), s.sel, UniformCrossover::new(s.cross), UniformMutation::new(s.mutate), s.rein);
    WIDE.set(s.table == 2);
    let seed = s.seed;
    let go = || algo.evolve(s.pop, s.gens, s.hof, Some(seed), announce, &());
    let e = match menu.into() {
        Some(menu) => controlled(ch, menu, go),
        None => go(),
    };
    let seen = SEEN.with(|x| std::mem::take(&mut *x.borrow_mut()));
    let table = Table(s.table);
    let reported: Vec<Vec<(Toy, f64)>> = e.generations.iter().map(|g| pairs(&g.hall_of_fame)).collect();
    note!(ch, "population {} generations {} best {} {:?} {:?} crossover {} mutation {}: {reported:?}", s.pop, s.gens, s.hof, s.sel, s.rein, s.cross, s.mutate);
    ensure!(e.seed == seed, "seed {} instead of {seed}", e.seed);
    ensure!(reported.len() == s.gens + 1, "{} generations reported instead of {}", reported.len(), s.gens + 1);
    ensure!(
        seen.announced.iter().enumerate().all(|(k, (nr, _))| *nr == k) && seen.announced.len() == s.gens + 1,
        "announced generations {:?}", seen.announced.iter().map(|a| a.0).collect::<Vec<_>>()
    );
    for (k, r) in reported.iter().enumerate() {
        ensure!(seen.announced[k].1 == *r, "generation {k} was announced as {:?} and reported as {r:?}", seen.announced[k].1);
        ensure!(r.len() == s.hof.min(s.pop), "{} best individuals instead of {}", r.len(), s.hof.min(s.pop));
        ensure!(sorted(r), "generation {k} is not ordered: {r:?}");
    }
    ensure!(seen.parents.len() == s.gens, "{} selections for {} generations", seen.parents.len(), s.gens);
    for p in reported.iter().chain(&seen.parents).chain(&seen.bred) {
        for (t, f) in p {
            ensure!(*f == table.fitness(t), "{t:?} carries fitness {f} instead of {}", table.fitness(t));
        }
    }
    for (k, p) in seen.parents.iter().enumerate() {
        ensure!(p.len() == s.pop, "population of generation {k} is {} instead of {}", p.len(), s.pop);
        let mut all: Vec<f64> = p.iter().map(|x| x.1).collect();
        all.sort_by(|a, b| b.partial_cmp(a).unwrap());
        ensure!(
            reported[k].iter().map(|x| x.1).eq(all.into_iter().take(s.hof.min(s.pop))),
            "best of generation {k} are {:?} of {p:?}", reported[k]
        );
        let mut left = p.clone();
        for r in &reported[k] {
            match left.iter().position(|x| x == r) {
                Some(i) => left.remove(i),
                None => fail!("{r:?} was reported but is not in {p:?}"),
            };
        }
    }
    for p in &seen.parents {
        ch.state(p.iter().fold(H::new().u(s.pop as u64), |h, (t, f)| h.u(t.a as u64 * 2 + t.b as u64).f(*f)).get());
    }
    ch.trans(s.gens);
    ch.validated();
    Ok((reported, seen))
}

/// Fits together: offspring counts, rates and populations.
fn setups(pop: usize) -> Vec<(Sel, Rein)> {
    let mut v = vec![];
    for rein in [Rein::Elite(0.5, 0.0), Rein::Elite(0.5, 0.5), Rein::Elite(0.75, 1.0), Rein::Elite(0.75, 0.25), Rein::Elite(0.25, 0.5)] {
        for sel in [Sel::Elite(false), Sel::Elite(true), Sel::Tournament(0.25), Sel::Tournament(0.75)] {
            v.push((sel, rein));
        }
    }
    for sel in [Sel::Elite(false), Sel::Elite(true), Sel::Tournament(0.5), Sel::Random] {
        v.push((sel, Rein::Pure));
    }
    for r in [1.25, 1.5, 2.0] {
        if (pop as f32 * r) as usize > pop {
            v.push((Sel::Tournament(0.5), Rein::Fitness(r)));
        }
    }
    v
}

fn c18(run: &mut Run) {
    run.assume("operators are combined as their own assertions demand: elite selection breeds at most the population, fitness reinsertion more than it, random selection exactly it");
    evolutions(run, |_, _, _, _| Ok(()));
}

fn evolutions(run: &mut Run, more: fn(&mut Ch, &Setup, &[Vec<(Toy, f64)>], &Seen) -> Res) {
    let rates = [0.0f32, 0.5, 1.0];
    let d = run.deep(3, 5);
    run.section("population of 2", &format!("population 2, 1..=2 generations, 1..=3 best: every operator combination x crossover and mutation never, sometimes, always x every initial population x at most {d} deviating random outcomes"), |ch| {
        let (sel, rein) = *ch.of(&setups(2));
        let gens = 1 + ch.pick(2);
        let s = Setup { pop: 2, gens, hof: 1 + ch.pick(3), sel, rein, cross: *ch.of(&rates), mutate: *ch.of(&rates), table: ch.pick(2), seed: 7 };
        ch.set_devs(d + 1 - gens as u32);
        let (r, seen) = evolve(ch, &s, Menu { free: 4, ..Menu::SMALL })?;
        more(ch, &s, &r, &seen)
    });
    let d = run.deep(2, 3);
    run.section("populations", &format!("populations 3 and 4, 0..=2 generations, all individuals reported: every operator combination x every initial population (of 3; those of 4 count as outcomes) x at most {d} deviating random outcomes (one less with 2 generations)"), |ch| {
        let pop = 3 + ch.pick(2);
        let (sel, rein) = *ch.of(&setups(pop));
        let (cross, mutate) = *ch.of(&[(0.5, 0.5), (1.0, 0.5), (0.0, 0.0)]);
        let s = Setup { pop, gens: ch.pick(3), hof: pop, sel, rein, cross, mutate, table: 0, seed: 7 };
        ch.set_devs(if s.gens == 2 { d - 1 } else { d });
        let (r, seen) = evolve(ch, &s, Menu { free: if pop == 3 { 6 } else { 0 }, ..Menu::SMALL })?;
        more(ch, &s, &r, &seen)
    });
    let d = run.deep(2, 3);
    run.section("longer", &format!("populations 5, 8 and 13, 4 generations: every operator combination x 2 fitness tables x at most {d} deviating random outcomes (one less from 8 on)"), |ch| {
        let pop = *ch.of(&[5, 8, 13]);
        let (sel, rein) = *ch.of(&setups(pop));
        let hof = *ch.of(&[pop, 2]);
        let s = Setup { pop, gens: 4, hof, sel, rein, cross: 0.5, mutate: 0.5, table: ch.pick(2), seed: 7 };
        ch.set_devs(if pop > 5 { d - 1 } else { d });
        let (r, seen) = evolve(ch, &s, Menu::SMALL)?;
        more(ch, &s, &r, &seen)
    });
    let n = run.deep(4, 40);
    run.section("sizes", &format!("every population of 2 to 40, and 64, 100 and 257, x 3 numbers of generations up to 60 x every operator combination x {n} seeds, with 6 and with 10000 genotypes"), |ch| {
        let pops: Vec<usize> = (2..=40).chain([64, 100, 257]).collect();
        let pop = *ch.of(&pops);
        let (sel, rein) = *ch.of(&setups(pop));
        let (gens, hof) = *ch.of(&[(1, pop), (9, pop + 3), (60, 1 + pop / 3)]);
        let seed = ch.pick(n as usize) as u64;
        let table = [2, 0][ch.pick(2)];
        let (cross, mutate) = [(0.5, 0.25), (1.0, 0.0), (0.0, 1.0), (0.25, 0.5)][seed as usize % 4];
        let s = Setup { pop, gens: if pop > 40 { gens.min(9) } else { gens }, hof, sel, rein, cross, mutate, table, seed };
        let (r, seen) = evolve(ch, &s, None)?;
        more(ch, &s, &r, &seen)
    });
}

// ---------------------------------------------------------------------------------------------
// C19

fn check_elite(ch: &mut Ch, s: &Setup, reported: &[Vec<(Toy, f64)>], seen: &Seen) -> Res {
    let Rein::Elite(_, gen_rate) = s.rein else {
        return Ok(());
    };
    for k in 0..s.gens {
        let room = s.pop - seen.bred[k].len();
        let fresh = (room as f64 * gen_rate as f64) as usize;
        let surviving = room - fresh;
        if surviving == 0 {
            ch.hit("no room for a parent");
            continue;
        }
        ch.hit("elite survives");
        ensure!(
            reported[k + 1][0].1 >= reported[k][0].1,
            "the best fitness fell from {} to {} in generation {}", reported[k][0].1, reported[k + 1][0].1, k + 1
        );
        // The whole next population, where known.
        let next = match seen.parents.get(k + 1) {
            Some(p) => p.clone(),
            None if s.hof >= s.pop => reported[k + 1].clone(),
            None => continue,
        };
        let mut parents = seen.parents[k].clone();
        parents.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
        let mut ranked: Vec<f64> = next.iter().map(|x| x.1).collect();
        ranked.sort_by(|a, b| b.partial_cmp(a).unwrap());
        for (i, p) in parents.iter().take(surviving).enumerate() {
            ensure!(ranked[i] >= p.1, "number {i} of generation {} has {} and that of its parents {}", k + 1, ranked[i], p.1);
        }
        // Among equals at the border any may survive.
        let border = parents[surviving - 1].1;
        let complete = parents.get(surviving).map_or(true, |p| p.1 < border);
        let mut left = next.clone();
        for p in parents.iter().filter(|p| p.1 > border || complete && p.1 == border) {
            match left.iter().position(|x| x == p) {
                Some(i) => left.remove(i),
                None => fail!("{p:?}, one of the best {surviving} of {parents:?}, is not in the next generation {next:?}"),
            };
        }
    }
    Ok(())
}

fn c19(run: &mut Run) {
    run.assume("of equally fit parents at the border of the elite any may survive");
    evolutions(run, check_elite);
}

// ---------------------------------------------------------------------------------------------
// C20

/// An individual without genes that can be recognised.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Tag(u32);
impl Chromosome for Tag {
    type Context = u32;
    fn len() -> usize {
        0
    }
    fn generate(rng: &mut StdRng, base: &u32) -> Self {
        Tag(base + rng.gen_range(0..3))
    }
    fn cross(&mut self, _: &mut Self, _: usize) {
        panic!()
    }
    fn mutate(&mut self, _: &mut StdRng, _: usize, _: &u32) {
        panic!()
    }
}

fn tags(p: &[Individual<Tag>]) -> Vec<(u32, f64)> {
    p.iter().map(|i| (i.chromosome.0, i.fitness)).collect()
}

/// A population ordered by fitness, best first; every pattern of ties.
fn population(ch: &mut Ch, n: usize, first: u32) -> Vec<Individual<Tag>> {
    let mut f = 10.0;
    (0..n)
        .map(|k| {
            if k > 0 {
                f -= *ch.of(&[1.0, 0.0, 3.0]);
            }
            Individual { chromosome: Tag(first + k as u32), fitness: f }
        })
        .collect()
}

fn rng() -> StdRng {
    StdRng::seed_from_u64(1)
}

fn binomial(n: usize, k: usize) -> f64 {
    (0..k).map(|i| (n - i) as f64 / (i + 1) as f64).product()
}

fn distribution<T: Ord + Clone>(outcomes: &[(T, f64)]) -> BTreeMap<T, f64> {
    let mut m = BTreeMap::new();
    for (t, w) in outcomes {
        *m.entry(t.clone()).or_insert(0.0) += w;
    }
    m
}

/// The next population after reinsertion of the `bred` into the `parents`.
fn check_next(kind: usize, gen_rate: f32, n: usize, parents: &[(u32, f64)], bred: &[(u32, f64)], next: &[(u32, f64)]) -> Res {
    let m = bred.len();
    ensure!(next.len() == n, "population of {} instead of {n}", next.len());
    let old: Vec<_> = next.iter().filter(|x| x.0 < 200).collect();
    let kept: Vec<_> = next.iter().filter(|x| (200..500).contains(&x.0)).collect();
    let fresh = next.iter().filter(|x| x.0 >= 500).count();
    let mut ids: Vec<_> = next.iter().filter(|x| x.0 < 500).map(|x| x.0).collect();
    ids.sort_unstable();
    ids.dedup();
    ensure!(ids.len() + fresh == n, "someone was taken twice: {next:?}");
    ensure!(old.iter().all(|x| parents.contains(x)) && kept.iter().all(|x| bred.contains(x)), "someone was altered: {next:?}");
    // The best of those there are, ties aside.
    let best = |of: &[(u32, f64)], got: &[&(u32, f64)]| {
        let mut f: Vec<f64> = got.iter().map(|x| x.1).collect();
        f.sort_by(|a, b| b.partial_cmp(a).unwrap());
        f.iter().eq(of.iter().take(got.len()).map(|x| &x.1))
    };
    match kind {
        0 => {
            let want = ((n - m) as f64 * gen_rate as f64) as usize;
            ensure!(fresh == want, "{fresh} new individuals instead of {want}");
            ensure!(kept.len() == m, "{} of {m} offspring kept", kept.len());
            ensure!(best(parents, &old), "{old:?} are not the best of {parents:?}");
            // New individuals are yet to be evaluated; all others are ranked.
            ensure!(next.iter().filter(|x| x.0 < 500).collect::<Vec<_>>().windows(2).all(|w| w[0].1 >= w[1].1), "not ordered: {next:?}");
        }
        1 => {
            ensure!(kept.len() == n, "not only offspring: {next:?}");
            ensure!(best(bred, &kept), "{next:?} are not the best of {bred:?}");
        }
        _ => ensure!(next == bred, "the offspring {bred:?} became {next:?}"),
    }
    Ok(())
}

fn c20(run: &mut Run) {
    run.assume("of equally fit individuals any may be picked; a tournament samples without replacement, every sample being equally likely");
    let most = run.deep(7, 8);
    run.section("elite selection", &format!("populations of up to {most} with every pattern of ties x 6 rates x shuffled (up to 6) or not, every outcome"), |ch| {
        let n = 1 + ch.pick(most);
        let p = population(ch, n, 100);
        let rate = *ch.of(&[0.0f32, 0.25, 0.5, 0.625, 0.75, 1.0]);
        let shuffle = ch.flag();
        let count = (n as f64 * rate as f64) as usize;
        if shuffle && count > 5 {
            return Err(Stop::Prune);
        }
        let before = tags(&p);
        let all = Ch::outcomes(|c| {
            weighted(c, Menu::SMALL, || {
                let mut o = vec![];
                EliteSelection::new(shuffle).select(&mut rng(), &p, &mut o, rate, &500);
                tags(&o)
            })
        });
        note!(ch, "{before:?} rate {rate} shuffle {shuffle}: {} outcomes, first {:?}", all.len(), all[0].0);
        for (o, _) in &all {
            ensure!(o.len() == count, "{} picked instead of {count} of {n}", o.len());
            let mut ids: Vec<_> = o.iter().map(|x| x.0).collect();
            ids.sort_unstable();
            ids.dedup();
            ensure!(ids.len() == o.len() && o.iter().all(|x| before.contains(x)), "{o:?} picked from {before:?}");
            let mut f: Vec<f64> = o.iter().map(|x| x.1).collect();
            f.sort_by(|a, b| b.partial_cmp(a).unwrap());
            ensure!(f.iter().eq(before.iter().take(count).map(|x| &x.1)), "{o:?} are not the best {count} of {before:?}");
            if !shuffle {
                ensure!(o.windows(2).all(|w| w[0].1 >= w[1].1), "{o:?} are not in order");
            }
        }
        if shuffle && count > 0 {
            let d = distribution(&all.iter().map(|(o, w)| (o.iter().map(|x| x.0).collect::<Vec<_>>(), *w)).collect::<Vec<_>>());
            let orders: f64 = (1..=count).map(|k| k as f64).product();
            ensure!(d.len() as f64 == orders && d.values().all(|w| close(*w, 1.0 / orders, 1e-9, 0.0)), "{} orders of {count}: {d:?}", d.len());
        }
        ensure!(tags(&p) == before, "the parents were altered");
        ch.state(before.iter().fold(H::new().u(count as u64), |h, x| h.f(x.1)).get());
        ch.trans(all.len());
        ch.validated();
        Ok(())
    });
    let most = run.deep(6, 7);
    run.section("tournaments", &format!("populations of up to {most} with every pattern of ties x 8 tournament sizes x 6 rates: exact distribution of every winner"), |ch| {
        let n = 1 + ch.pick(most);
        let p = population(ch, n, 100);
        let size_rate = *ch.of(&[0.0625f32, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.96875]);
        let size = ((n as f64 * size_rate as f64) as usize).max(1);
        let before = tags(&p);
        // One tournament.
        let one = 1.0 / n as f32 * 1.000_001;
        let all = Ch::outcomes(|c| {
            weighted(c, Menu::SMALL, || {
                let mut o = vec![];
                TournamentSelection::new(size_rate, true).select(&mut rng(), &p, &mut o, one, &500);
                tags(&o)
            })
        });
        ensure!(all.iter().all(|(o, _)| o.len() == 1 && before.contains(&o[0])), "one tournament of {before:?} gives {:?}", all[0].0);
        let got = distribution(&all.iter().map(|(o, w)| ((o[0].1 * 16.0) as i64, *w)).collect::<Vec<_>>());
        // Best of every sample: rank r wins if the others come from the ranks behind it.
        let mut want = BTreeMap::new();
        for r in 0..n {
            if n - 1 - r >= size - 1 {
                *want.entry((before[r].1 * 16.0) as i64).or_insert(0.0) += binomial(n - 1 - r, size - 1) / binomial(n, size);
            }
        }
        note!(ch, "{before:?} tournaments of {size}: {got:?}");
        ensure!(
            got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a.0 == b.0 && close(*a.1, *b.1, 1e-9, 0.0)),
            "tournaments of {size} in {before:?} are won (fitness x 16) by {got:?} instead of {want:?}"
        );
        ensure!(tags(&p) == before, "the parents were altered");
        ch.state(before.iter().fold(H::new().u(size as u64), |h, x| h.f(x.1)).get());
        ch.trans(all.len());
        ch.validated();
        Ok(())
    });
    run.section("counts", "tournament and random selection: populations of up to 9, 8 rates, at most 3 deviating outcomes", |ch| {
        let n = 1 + ch.pick(9);
        let p: Vec<_> = (0..n).map(|k| Individual { chromosome: Tag(k as u32), fitness: -(k as f64) }).collect();
        let before = tags(&p);
        let random = ch.flag();
        let rate = if random { 1.0 } else { *ch.of(&[0.0f32, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 2.0]) };
        let count = (n as f64 * rate as f64) as usize;
        ch.set_devs(3);
        let mut o = vec![];
        controlled(ch, Menu::SMALL, || {
            if random {
                GenerateRandomSelection {}.select(&mut rng(), &p, &mut o, rate, &500)
            } else {
                TournamentSelection::new(0.5, true).select(&mut rng(), &p, &mut o, rate, &500)
            }
        });
        let o = tags(&o);
        note!(ch, "{n} at rate {rate}, random {random}: {o:?}");
        ensure!(o.len() == count, "{} bred instead of {count} of {n}", o.len());
        for x in &o {
            ensure!(random && x.0 >= 500 || !random && before.contains(x), "{x:?} bred from {before:?}, random {random}");
        }
        ensure!(tags(&p) == before, "the parents were altered");
        ch.state(o.iter().fold(H::new(), |h, x| h.u(x.0 as u64)).get());
        ch.trans(o.len());
        ch.validated();
        Ok(())
    });
    let most = run.deep(5, 6);
    run.section("reinsertion", &format!("every pair of parents and offspring of up to {most} (elite: fewer offspring; fitness: more; pure: as many) with every pattern of ties x 4 generation rates, every outcome"), |ch| {
        let n = 2 + ch.pick(most - 1);
        let kind = ch.pick(3);
        let m = match kind {
            0 => ch.pick(n),
            1 => n + 1 + ch.pick(3),
            _ => n,
        };
        let gen_rate = if kind == 0 { *ch.of(&[0.0f32, 0.25, 0.5, 1.0]) } else { 0.0 };
        let p = population(ch, n, 100);
        let mut o = population(ch, m, 200);
        let shift = *ch.of(&[0.0, 2.0, -2.0]);
        o.iter_mut().for_each(|x| x.fitness += shift);
        let (parents, bred) = (tags(&p), tags(&o));
        ch.set_devs(2);
        controlled(ch, Menu::SMALL, || match kind {
            0 => EliteReinsertion::new(0.5, gen_rate).reinsert(&mut rng(), &p, &mut o, n, &500),
            1 => FitnessReinsertion::new(1.5).reinsert(&mut rng(), &p, &mut o, n, &500),
            _ => PureReinsertion {}.reinsert(&mut rng(), &p, &mut o, n, &500),
        });
        let next = tags(&o);
        note!(ch, "kind {kind} rate {gen_rate} parents {parents:?} offspring {bred:?}: {next:?}");
        ensure!(tags(&p) == parents, "the parents were altered");
        check_next(kind, gen_rate, n, &parents, &bred, &next)?;
        ch.state(next.iter().fold(H::new().u(kind as u64), |h, x| h.f(x.1).u((x.0 / 100) as u64)).get());
        ch.trans(1);
        ch.validated();
        Ok(())
    });
    let seeds = run.deep(3, 16) as usize;
    run.section("sizes", &format!("populations of every size from 2 to 149 and 3 patterns of ties x selections and reinsertions at {} rates x {seeds} seeds: whom they pick", 6), |ch| {
        let n = 2 + ch.pick(148);
        let ties = ch.pick(3);
        let people = |n: usize, first: u32| -> Vec<Individual<Tag>> {
            let fitness = |k: usize| [-(k as f64), -((k / 3) as f64), if k < n / 2 { 1.0 } else { -1e6 }][ties];
            (0..n).map(|k| Individual { chromosome: Tag(first + k as u32), fitness: fitness(k) }).collect()
        };
        let p = people(n, 1000);
        let parents = tags(&p);
        let rate = *ch.of(&[0.0f32, 0.125, 0.25, 0.5, 0.75, 1.0]);
        let count = (n as f64 * rate as f64) as usize;
        let mut rng = StdRng::seed_from_u64(ch.pick(seeds) as u64);
        for shuffle in [false, true] {
            let mut o = vec![];
            EliteSelection::new(shuffle).select(&mut rng, &p, &mut o, rate, &5000);
            let o = tags(&o);
            ensure!(o.len() == count, "{} picked instead of {count} of {n}", o.len());
            let ids: BTreeSet<_> = o.iter().map(|x| x.0).collect();
            ensure!(ids.len() == count && o.iter().all(|x| parents.contains(x)), "{o:?} picked from {parents:?}");
            let mut f: Vec<f64> = o.iter().map(|x| x.1).collect();
            f.sort_by(|a, b| b.partial_cmp(a).unwrap());
            ensure!(f.iter().eq(parents.iter().take(count).map(|x| &x.1)), "{o:?} are not the best {count} of {parents:?}");
            ensure!(shuffle || o.windows(2).all(|w| w[0].1 >= w[1].1), "{o:?} are not in order");
        }
        for size_rate in [0.0625f32, 0.25, 0.75] {
            let size = ((n as f64 * size_rate as f64) as usize).max(1);
            for rate in [rate, 1.5 * rate] {
                let count = (n as f64 * rate as f64) as usize;
                let mut o = vec![];
                TournamentSelection::new(size_rate, true).select(&mut rng, &p, &mut o, rate, &5000);
                let o = tags(&o);
                ensure!(o.len() == count, "{} tournaments instead of {count} of {n}", o.len());
                // The worst that can be the best of so many.
                let worst = parents[n - size].1;
                ensure!(o.iter().all(|x| parents.contains(x) && x.1 >= worst), "tournaments of {size} of {parents:?} are won by {o:?}");
            }
        }
        let mut o = vec![];
        GenerateRandomSelection {}.select(&mut rng, &p, &mut o, 1.0, &5000);
        ensure!(o.len() == n && tags(&o).iter().all(|x| x.0 >= 5000), "{:?} at random for {n}", tags(&o));
        for kind in 0..3 {
            let m = match kind {
                0 => (n as f64 * rate as f64 * 0.875) as usize,
                1 => n + 1 + count,
                _ => n,
            };
            for gen_rate in [0.0f32, 0.125, 0.5, 1.0] {
                let mut o = people(m, 2000);
                // Better, among or worse than their parents.
                let shift = [0.5, 1000.0, -1000.0][(n + m) % 3];
                o.iter_mut().for_each(|x| x.fitness += shift);
                let bred = tags(&o);
                match kind {
                    0 => EliteReinsertion::new(0.5, gen_rate).reinsert(&mut rng, &p, &mut o, n, &5000),
                    1 => FitnessReinsertion::new(1.5).reinsert(&mut rng, &p, &mut o, n, &5000),
                    _ => PureReinsertion {}.reinsert(&mut rng, &p, &mut o, n, &5000),
                }
                let small = |v: &[(u32, f64)]| -> Vec<(u32, f64)> {
                    v.iter().map(|x| (if x.0 >= 5000 { 500 } else if x.0 >= 2000 { 200 + (x.0 - 2000) % 300 } else { x.0 - 1000 }, x.1)).collect()
                };
                // The numbers of `check_next` suffice for 200 parents and 300 offspring.
                check_next(kind, gen_rate, n, &small(&parents), &small(&bred), &small(&tags(&o)))?;
            }
        }
        ensure!(tags(&p) == parents, "the parents were altered");
        note!(ch, "{n} with ties {ties} at rate {rate}");
        ch.state(H::new().u(n as u64).u(ties as u64).u(count as u64).get());
        ch.trans(20);
        ch.validated();
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------
// C21

/// Counts visits.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Visits<const N: usize> {
    crossed: [u8; N],
    mutated: [u8; N],
}
impl<const N: usize> Visits<N> {
    const NONE: Self = Visits { crossed: [0; N], mutated: [0; N] };
}
impl<const N: usize> Chromosome for Visits<N> {
    type Context = ();
    fn len() -> usize {
        N
    }
    fn generate(_: &mut StdRng, _: &()) -> Self {
        Self::NONE
    }
    fn cross(&mut self, other: &mut Self, i: usize) {
        self.crossed[i] += 1;
        other.crossed[i] += 1;
    }
    fn mutate(&mut self, _: &mut StdRng, i: usize, _: &()) {
        self.mutated[i] += 1;
    }
}

fn visits<const N: usize>(ch: &mut Ch, cross: bool, p: f32) -> Res {
    let all = Ch::outcomes(|c| {
        weighted(c, Menu::GRID, || {
            let (mut a, mut b) = (Visits::<N>::NONE, Visits::<N>::NONE);
            if cross {
                UniformCrossover::new(p).cross(&mut rng(), &mut a, &mut b);
                assert_eq!(a.crossed, b.crossed);
                assert_eq!(a.mutated, [0; N]);
                a.crossed
            } else {
                UniformMutation::new(p).mutate(&mut rng(), &mut a, &());
                assert_eq!(a.crossed, [0; N]);
                a.mutated
            }
        })
    });
    let d = distribution(&all);
    note!(ch, "{N} genes, crossover {cross}, probability {p}: {d:?}");
    for (v, w) in &d {
        ensure!(v.iter().all(|x| *x <= 1), "a gene was visited more than once: {v:?}");
        let k = v.iter().filter(|x| **x == 1).count() as i32;
        let want = (p as f64).powi(k) * (1.0 - p as f64).powi(N as i32 - k);
        ensure!(close(*w, want, 1e-6, 1e-9), "probability of acting on exactly {v:?} is {w} instead of {want} (configured: {p})");
    }
    let total: f64 = d.values().sum();
    ensure!(close(total, 1.0, 1e-9, 0.0), "harness: probabilities add up to {total}");
    let positive = if p == 0.0 || p == 1.0 { 1 } else { 1 << N };
    ensure!(d.values().filter(|w| **w > 0.0).count() == positive, "{} outcomes instead of {positive}", d.len());
    ch.state(H::new().u(N as u64).f(p as f64).u(cross as u64).get());
    ch.trans(all.len());
    ch.validated();
    Ok(())
}

fn parse(v: &Value) -> TradingParams {
    serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("{v} is not accepted: {e}"))
}
fn text(p: &TradingParams) -> Value {
    serde_json::to_value(p).unwrap()
}

type Kind = ((String, String, String), &'static str, &'static str);

fn person(k: &Kind, c: u32, interval: u64) -> Value {
    genes::individual(genes::strategy(&k.0, c), interval, genes::stop_loss(k.1, c), genes::take_profit(k.2, c))
}

fn pick_kind(ch: &mut Ch) -> Kind {
    (ch.of(&genes::strategy_kinds()).clone(), genes::STOP_LOSSES[ch.pick(5)], genes::TAKE_PROFITS[ch.pick(4)])
}

/// One part varies in full, the others take two variants.
fn pick_kind_sparse(ch: &mut Ch) -> Kind {
    let kinds = genes::strategy_kinds();
    match ch.pick(2) {
        0 => (ch.of(&kinds).clone(), *ch.of(&["BasicPlusTrailing", "Noop"]), *ch.of(&["Trending", "Legacy"])),
        _ => (kinds[*ch.of(&[2, 19])].clone(), genes::STOP_LOSSES[ch.pick(5)], genes::TAKE_PROFITS[ch.pick(4)]),
    }
}

fn check_cross(ch: &mut Ch, a: &Value, b: &Value) -> Res {
    let n = TradingParams::len();
    // What every gene may do, each once.
    let mut want: Vec<(Value, Value)> = genes::common_genes(a, b)
        .iter()
        .filter(|g| a.pointer(g) != b.pointer(g))
        .map(|g| (genes::replaced(a, g, b.pointer(g).unwrap()), genes::replaced(b, g, a.pointer(g).unwrap())))
        .collect();
    for i in 0..n {
        let (mut x, mut y) = (parse(a), parse(b));
        guarded(|| x.cross(&mut y, i)).map_err(|e| Stop::Fail(format!("crossing {a} and {b} at {i}: {e}")))?;
        let (x, y) = (text(&x), text(&y));
        if x == *a && y == *b {
            continue;
        }
        match want.iter().position(|w| w.0 == x && w.1 == y) {
            Some(k) => {
                want.swap_remove(k);
            }
            None => fail!("crossing {a} and {b} at gene {i} of {n} gives {x} and {y}, which is not a swap of one gene not swapped at another index"),
        }
    }
    if let Some(w) = want.first() {
        fail!("no index swaps {a} and {b} into {} and {}", w.0, w.1);
    }
    ch.trans(n);
    ch.validated();
    Ok(())
}

fn c21(run: &mut Run) {
    run.assume("genes are the fields of the parameters as serialised, parts with variants having one more for the variant");
    run.section("probabilities", "1..=4 genes x 6 probabilities x crossover and mutation: exact distribution of the genes acted on, over a grid of 10 equally likely draws per gene", |ch| {
        let cross = ch.flag();
        let p = *ch.of(&[0.0f32, 0.1, 0.3, 0.5, 0.9, 1.0]);
        match ch.pick(4) {
            0 => visits::<1>(ch, cross, p),
            1 => visits::<2>(ch, cross, p),
            2 => visits::<3>(ch, cross, p),
            _ => visits::<4>(ch, cross, p),
        }
    });
    run.section("boundaries", "unlikely, never and always, for the lowest and highest draws", |ch| {
        let cross = ch.flag();
        let p = *ch.of(&[0.0f32, 1.0 / 1024.0, 1.0 / 64.0, 0.9999, 1.0]);
        let r = *ch.of(&[0.0f64, 1.0 - 1.0 / (1u64 << 24) as f64]);
        let menu = if r == 0.0 { Menu { units: &[0.0], ranges: &[0.0], ..Menu::SMALL } } else { Menu { units: &[1.0 - 1.0 / (1u64 << 24) as f64], ranges: &[1.0 - 1.0 / (1u64 << 24) as f64], ..Menu::SMALL } };
        let (mut a, mut b) = (Visits::<3>::NONE, Visits::<3>::NONE);
        controlled(ch, menu, || if cross { UniformCrossover::new(p).cross(&mut rng(), &mut a, &mut b) } else { UniformMutation::new(p).mutate(&mut rng(), &mut a, &()) });
        let v = if cross { a.crossed } else { a.mutated };
        let expected = p == 1.0 || p > 0.0 && r == 0.0;
        ensure!(v == [expected as u8; 3], "probability {p}, draws of {r}: acted on {v:?}");
        ch.state(H::new().f(r).u(cross as u64).f(p as f64).get());
        ch.trans(3);
        ch.validated();
        Ok(())
    });
    let thorough = run.thorough();
    run.section("crossover", "every pair of strategies (28 x 28, nested signals and oscillators included), and every pair of stop losses and take profits, at every gene", |ch| {
        let (ka, kb) = if thorough {
            let ka = pick_kind(ch);
            (ka, pick_kind_sparse(ch))
        } else if ch.flag() {
            let k = genes::strategy_kinds();
            ((ch.of(&k).clone(), "Basic", "Trending"), (ch.of(&k).clone(), *ch.of(&["Basic", "Legacy"]), *ch.of(&["Trending", "Noop"])))
        } else {
            let k = genes::strategy_kinds();
            ((k[14].clone(), genes::STOP_LOSSES[ch.pick(5)], genes::TAKE_PROFITS[ch.pick(4)]), (k[*ch.of(&[14, 3])].clone(), genes::STOP_LOSSES[ch.pick(5)], genes::TAKE_PROFITS[ch.pick(4)]))
        };
        let (a, b) = (person(&ka, 0, HOUR), person(&kb, 1, 4 * HOUR));
        note!(ch, "{a} with {b}");
        check_cross(ch, &a, &b)?;
        ch.state(H::new().s(&format!("{ka:?}{kb:?}")).get());
        Ok(())
    });
    run.section("derived crossover", "chromosomes of 9 other shapes by the derive macros (parts only, variants within variants, one variant, four parts, generic ones): every pair of variants at every gene", derived::crossing);
    run.section("mutation", "every individual out of strategies, stop losses and take profits (nested ones included) at every gene, with at most 1 deviating draw", |ch| {
        let k = if thorough { pick_kind(ch) } else { pick_kind_sparse(ch) };
        let a = person(&k, 1, 4 * HOUR);
        let ctx: TradingParamsContext = serde_json::from_value(json!({"trader": {"intervals": [HOUR, 4 * HOUR, 6 * HOUR]}})).unwrap();
        let mut reached = vec![];
        let n = TradingParams::len();
        let mut total = 0;
        for i in 0..n {
            let all = Ch::outcomes(|c| {
                c.set_devs(1);
                guarded(|| {
                    controlled(c, Menu::SMALL, || {
                        let mut x = parse(&a);
                        x.mutate(&mut rng(), i, &ctx);
                        text(&x)
                    })
                })
            });
            total += all.len();
            let mut touched = vec![];
            for o in all {
                match o {
                    Ok(x) => {
                        for g in genes::changed(&a, &x) {
                            if !touched.contains(&g) {
                                touched.push(g);
                            }
                        }
                    }
                    Err(e) => fail!("mutating {a} at {i}: {e}"),
                }
            }
            if touched.is_empty() {
                continue;
            }
            match genes::enclosing(&a, &touched) {
                Some(g) => {
                    ensure!(!reached.contains(&g), "{g} of {a} is mutated at more than one index, the last being {i} of {n}");
                    reached.push(g);
                }
                None => fail!("mutating {a} at {i} of {n} changes {touched:?}"),
            }
        }
        for g in genes::genes(&a) {
            ensure!(reached.contains(&g), "no index mutates {g} of {a}");
        }
        note!(ch, "{a}: {reached:?}");
        ch.state(H::new().s(&format!("{k:?}")).get());
        ch.trans(total);
        ch.validated();
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------
// C22

fn market(interval: u64, n: usize) -> Vec<Candle> {
    // Trends, ranges, gaps in price and flat stretches.
    let mut v = vec![];
    let mut p: f64 = 100.0;
    for k in 0..n {
        p *= match (k / 9) % 5 {
            0 => 1.03,
            1 => 0.96,
            2 => 1.0,
            3 => [1.08, 0.93][k % 2],
            _ => 1.015,
        };
        if (k / 9) % 5 == 2 {
            v.push(candle(k as u64 * interval, p, p, p));
        } else {
            v.push(candle(k as u64 * interval, p * 1.02, p * 0.97, p));
        }
    }
    v
}

fn tradable(p: &TradingParams, candles: &HashMap<u64, Vec<Candle>>) -> Res {
    let cs = &candles[&p.trader.interval.0];
    let s = guarded(|| mc::tkit::run(p, &Cfg::BASE, cs, true, true)).map_err(|e| Stop::Fail(format!("trading {} panicked: {e}", text(p))))?;
    for x in &s.positions {
        let x = pos(x);
        ensure!(x.profit.is_finite(), "{} makes {} in a position", text(p), x.profit);
    }
    Ok(())
}

fn check_person(p: &TradingParams, intervals: &[u64], candles: &HashMap<u64, Vec<Candle>>) -> Res {
    thread_local! {
        static FINE: RefCell<std::collections::HashSet<String>> = RefCell::default();
    }
    let v = text(p);
    let key = format!("{v} {intervals:?}");
    if FINE.with(|f| f.borrow().contains(&key)) {
        return Ok(());
    }
    genes::check_ranges(&v, intervals).map_err(|e| Stop::Fail(format!("{v}: {e}")))?;
    tradable(p, candles)?;
    FINE.with(|f| f.borrow_mut().insert(key));
    Ok(())
}

const OFFERED: [u64; 3] = [HOUR, 4 * HOUR, DAY];

fn check_pins(what: &str, v: &Value, person: &Value, pinned: &[String]) -> Res {
    for g in pinned {
        let (want, got) = (person.pointer(g).unwrap(), v.pointer(g));
        let ok = match got {
            None => false,
            Some(x) if genes::is_part(g.rsplit('/').next().unwrap()) => x.get("type") == want.get("type"),
            Some(x) => x == want,
        };
        ensure!(ok, "{what}: {g} is {} though pinned to {want}, in {v}", got.unwrap_or(&Value::Null));
    }
    Ok(())
}

fn c22(run: &mut Run) {
    run.assume("ranges are those the generators document; extremes of a range are its lowest value, its middle and the last value below its end");
    let candles: HashMap<u64, Vec<Candle>> = OFFERED.iter().map(|i| (*i, market(*i, 340))).collect();
    let candles = &candles;
    let d = run.deep(3, 4);
    run.section("free", &format!("nothing pinned, 1 or 3 intervals offered: generation with at most {d} deviating draws"), |ch| {
        let n = *ch.of(&[3usize, 1]);
        let offered = &OFFERED[..n];
        let ctx: TradingParamsContext = serde_json::from_value(json!({"trader": {"intervals": offered}})).unwrap();
        ch.set_devs(d);
        let p = controlled(ch, Menu::SMALL, || TradingParams::generate(&mut rng(), &ctx));
        note!(ch, "{}", text(&p));
        check_person(&p, offered, candles)?;
        ch.state(H::new().s(&text(&p).to_string()).get());
        ch.trans(1);
        ch.validated();
        Ok(())
    });
    let d = run.deep(1, 2);
    run.section("bred", &format!("nothing pinned: every individual with at most {d} deviating draws, crossed at every gene with one of every variant, which is mutated there with what is left of the deviations"), |ch| {
        let ctx: TradingParamsContext = serde_json::from_value(json!({"trader": {"intervals": OFFERED}})).unwrap();
        let k = pick_kind_sparse(ch);
        let other = person(&k, ch.pick(2) as u32, 4 * HOUR);
        let mut y = parse(&other);
        ch.set_devs(d);
        let mut x = controlled(ch, Menu::SMALL, || TradingParams::generate(&mut rng(), &ctx));
        let i = ch.pick(TradingParams::len());
        x.cross(&mut y, i);
        check_person(&x, &OFFERED, candles)?;
        check_person(&y, &OFFERED, candles)?;
        controlled(ch, Menu::SMALL, || y.mutate(&mut rng(), i, &ctx));
        note!(ch, "gene {i}: {} and {}", text(&x), text(&y));
        check_person(&y, &OFFERED, candles)?;
        ch.state(H::new().s(&text(&y).to_string()).get());
        ch.trans(2);
        ch.validated();
        Ok(())
    });
    let d = run.deep(1, 2);
    run.section("pinned", &format!("every individual x each gene pinned alone, with its variants, all but it, and all: generation and then mutation at every gene with at most {d} deviating draws"), |ch| {
        let k = pick_kind_sparse(ch);
        let v = person(&k, 1, 4 * HOUR);
        let all: Vec<String> = genes::genes(&v).into_iter().filter(|g| g != "/trader/interval").collect();
        let g = ch.pick(all.len());
        let one = all[g].clone();
        let mut pinned: Vec<String> = match ch.pick(3) {
            0 => vec![one.clone()],
            1 => all.iter().filter(|x| **x != one && !x.starts_with(&format!("{one}/"))).cloned().collect(),
            _ => all.clone(),
        };
        // Whatever surrounds a pinned gene is pinned as well.
        for x in all.iter() {
            if pinned.iter().any(|p| p.starts_with(&format!("{x}/"))) && !pinned.contains(x) {
                pinned.push(x.clone());
            }
        }
        let ctx = genes::pinning(&v, &pinned, &[4 * HOUR]);
        let ctx: TradingParamsContext = serde_json::from_value(ctx.clone()).map_err(|e| Stop::Fail(format!("context {ctx}: {e}")))?;
        ch.set_devs(d);
        let mut p = controlled(ch, Menu::SMALL, || TradingParams::generate(&mut rng(), &ctx));
        check_pins("generated", &text(&p), &v, &pinned)?;
        check_person(&p, &[4 * HOUR], candles)?;
        let i = ch.pick(TradingParams::len());
        guarded(|| controlled(ch, Menu::SMALL, || p.mutate(&mut rng(), i, &ctx))).map_err(|e| Stop::Fail(format!("mutating {} at {i}: {e}", text(&p))))?;
        note!(ch, "pinned {pinned:?}, mutated at {i}: {}", text(&p));
        check_pins("mutated", &text(&p), &v, &pinned)?;
        check_person(&p, &[4 * HOUR], candles)?;
        ch.state(H::new().s(&text(&p).to_string()).get());
        ch.trans(2);
        ch.validated();
        Ok(())
    });
    let (pins, d) = run.deep((2, 1), (3, 1));
    run.section("derived", &format!("chromosomes of 8 other shapes by the derive macros x every variant x every context that pins up to {pins} genes: generation and then mutation at every gene with at most {d} deviating draws"), |ch| derived::breeding(ch, pins, d));
    run.section("reach", "nothing pinned: the choices that occur over all outcomes with at most 2 deviating draws", |ch| {
        let ctx: TradingParamsContext = serde_json::from_value(json!({"trader": {"intervals": OFFERED}})).unwrap();
        let all = Ch::outcomes(|c| {
            c.set_devs(2);
            controlled(c, Menu::SMALL, || text(&TradingParams::generate(&mut rng(), &ctx)))
        });
        let mut seen: BTreeSet<String> = BTreeSet::new();
        fn walk(v: &Value, at: &str, seen: &mut BTreeSet<String>) {
            match v {
                Value::Object(m) => {
                    for (k, x) in m {
                        walk(x, &format!("{at}/{k}"), seen);
                    }
                }
                Value::Array(a) => {
                    for (k, x) in a.iter().enumerate() {
                        walk(x, &format!("{at}/{k}"), seen);
                    }
                }
                x => {
                    seen.insert(format!("{at}={x}"));
                }
            }
        }
        for v in &all {
            let s = v["strategy"]["type"].as_str().unwrap();
            walk(v, "", &mut seen);
            walk(&v["strategy"], s, &mut seen);
        }
        let mut want: Vec<String> = vec![];
        let one = |at: &str, vs: &[&str]| vs.iter().map(|v| format!("{at}=\"{v}\"")).collect::<Vec<_>>();
        want.extend(one("/strategy/type", &genes::STRATEGIES));
        want.extend(one("Sig/sig/type", &genes::SIGNALS));
        want.extend(one("SigOsc/sig/type", &genes::SIGNALS));
        want.extend(one("SigOsc/osc/type", &genes::OSCILLATORS));
        want.extend(one("SigOsc/osc_filter", &["Enforce", "Prevent"]));
        want.extend(one("Sig/mid_trend_policy", &genes::POLICIES));
        want.extend(one("SigOsc/mid_trend_policy", &genes::POLICIES));
        want.extend(one("/stop_loss/type", &genes::STOP_LOSSES));
        want.extend(one("/take_profit/type", &genes::TAKE_PROFITS));
        for at in ["DoubleMA/mas/0", "DoubleMA/mas/1", "DoubleMA2/mas/0", "DoubleMA2/mas/1", "DoubleMAStoch/double_ma/mas/0", "DoubleMAStoch/double_ma/mas/1", "FourWeekRule/ma", "SingleMA/ma", "TripleMA/mas/0", "TripleMA/mas/1", "TripleMA/mas/2"] {
            want.extend(one(&format!("{at}/type"), &genes::MAS));
        }
        want.extend(one("/take_profit/easing", &EASINGS));
        for k in 0..10 {
            want.push(format!("Sig/persistence={k}"));
            want.push(format!("SigOsc/persistence={k}"));
        }
        for i in OFFERED {
            want.push(format!("/trader/interval={i}"));
        }
        for b in [true, false] {
            want.push(format!("/take_profit/lock_threshold={b}"));
            want.push(format!("/stop_loss/trail={b}"));
        }
        want.push("/stop_loss/threshold=0.0".into());
        want.push("/take_profit/threshold=0.0".into());
        for w in &want {
            ensure!(seen.contains(w), "{w} never occurs in {} outcomes", all.len());
        }
        note!(ch, "{} choices occur in {} outcomes", want.len(), all.len());
        ch.state(want.len() as u64);
        ch.trans(all.len());
        ch.validated();
        Ok(())
    });
}

const EASINGS: [&str; 31] = [
    "Linear", "QuadIn", "QuadOut", "QuadInout", "CubicIn", "CubicOut", "CubicInout", "QuartIn", "QuartOut", "QuartInout", "QuintIn",
    "QuintOut", "QuintInout", "SineIn", "SineOut", "SineInout", "CircIn", "CircOut", "CircInout", "ExpoIn", "ExpoOut", "ExpoInout",
    "ElasticIn", "ElasticOut", "ElasticInout", "BackIn", "BackOut", "BackInout", "BounceIn", "BounceOut", "BounceInout",
];

// ---------------------------------------------------------------------------------------------
// C23, C24: real evaluations

const SYMBOLS: [&str; 3] = ["eth-btc", "ltc-btc", "eth-usdt"];
const DAYS: u64 = 4;

struct Data {
    info: ExchangeInfo,
    candles: HashMap<String, HashMap<Interval, Vec<Candle>>>,
    prices: HashMap<String, Vec<f64>>,
}

fn symbol_cfg(k: usize) -> Cfg {
    match k {
        0 => Cfg { taker: 0.001, quote: 50.0, ..Cfg::BASE },
        1 => Cfg { taker: 0.02, maker: 0.0, min: 0.25, step: 0.25, limit: 3.0, rate: 0.002, quote: 50.0, ..Cfg::BASE },
        _ => Cfg { taker: 0.0, bp: 2, qp: 3, limit: 0.0, quote: 50.0, ..Cfg::BASE },
    }
}

/// Market data of three symbols that differ in everything.
fn data() -> Data {
    let start = 18_262 * DAY;
    let mut candles = HashMap::new();
    let mut info = ExchangeInfo { assets: HashMap::new(), fees: HashMap::new(), filters: HashMap::new(), borrow_info: HashMap::new() };
    for (k, s) in SYMBOLS.iter().enumerate() {
        let mut per = HashMap::new();
        for i in [HOUR, 4 * HOUR, 6 * HOUR] {
            let n = (DAYS * DAY / i) as usize;
            let cs: Vec<Candle> = (0..n)
                .map(|j| {
                    let x = j as f64 * i as f64 / HOUR as f64;
                    let p = 10.0 + 3.0 * (x / (5.0 + 3.0 * k as f64)).sin() + 1.5 * (x / 2.0 + k as f64).cos() + 0.02 * x * (1.0 - k as f64);
                    candle(start + j as u64 * i, p * 1.02, p * 0.97, p)
                })
                .collect();
            per.insert(Interval(i), cs);
        }
        candles.insert(s.to_string(), per);
        let c = symbol_cfg(k);
        info.fees.insert(s.to_string(), c.fees());
        info.filters.insert(s.to_string(), c.filters());
        let mut m = HashMap::new();
        for (j, a) in ["eth", "ltc", "btc", "usdt"].iter().enumerate() {
            // Only the terms of the symbol's base asset may matter.
            let base = s.starts_with(a);
            m.insert(a.to_string(), if base { c.borrow() } else { BorrowInfo { interest_interval: HOUR, interest_rate: 0.1 * j as f64, limit: 1.0 } });
        }
        info.borrow_info.insert(s.to_string(), m);
    }
    let mut prices = HashMap::new();
    for (k, a) in ["eth", "ltc", "btc", "usdt"].iter().enumerate() {
        prices.insert(a.to_string(), (0..=DAYS).map(|d| 5.0 + ((d as f64 + 1.0) * (k as f64 + 1.3)).sin() * 2.0).collect());
    }
    prices.insert("usdt".into(), vec![1.0; DAYS as usize + 1]);
    Data { info, candles, prices }
}

const STATS: [EvaluationStatistic; 4] = [EvaluationStatistic::Profit, EvaluationStatistic::ReturnOverMaxDrawdown, EvaluationStatistic::SharpeRatio, EvaluationStatistic::SortinoRatio];
const AGGS: [EvaluationAggregation; 3] = [EvaluationAggregation::Linear, EvaluationAggregation::Log10, EvaluationAggregation::Log10Factored];

fn evaluation(d: &Data, symbols: &[String], stat: usize, agg: usize) -> BasicEvaluation {
    evaluation_of(d, symbols, stat, agg, 50.0)
}
fn evaluation_of(d: &Data, symbols: &[String], stat: usize, agg: usize, quote: f64) -> BasicEvaluation {
    BasicEvaluation::new(&BasicEvaluationInput {
        exchange_info: &d.info,
        candles: &d.candles,
        prices: &d.prices,
        symbols,
        intervals: &[Interval(HOUR), Interval(4 * HOUR), Interval(6 * HOUR)],
        start: Timestamp(18_262 * DAY),
        end: Timestamp((18_262 + DAYS) * DAY),
        quote,
        evaluation_statistic: STATS[stat],
        evaluation_aggregation: AGGS[agg],
    })
}

fn names(k: &[usize]) -> Vec<String> {
    k.iter().map(|i| SYMBOLS[*i].to_string()).collect()
}

/// The statistic of one symbol's backtest.
fn symbol_value(d: &Data, p: &TradingParams, symbol: usize, stat: usize) -> f64 {
    symbol_value_of(d, p, symbol, stat, 50.0)
}
fn symbol_value_of(d: &Data, p: &TradingParams, symbol: usize, stat: usize, quote: f64) -> f64 {
    let name = SYMBOLS[symbol];
    let c = Cfg { mult: 2, quote, ..symbol_cfg(symbol) };
    let s = mc::tkit::run(p, &c, &d.candles[name][&p.trader.interval], true, true);
    let day = Interval(DAY);
    match stat {
        0 => juno::statistics::get_profit(&s),
        1 => juno::statistics::get_return_over_max_drawdown(&s),
        2 => juno::statistics::get_sharpe_ratio(&s, name, &d.prices, day),
        _ => juno::statistics::get_sortino_ratio(&s, name, &d.prices, day),
    }
}

fn log10ish(v: f64) -> f64 {
    if v >= 0.0 {
        (v + 1.0).log10()
    } else {
        -(10f64.powf(1.0 - v))
    }
}
fn aggregate(agg: usize, v: &[f64]) -> f64 {
    v.iter()
        .map(|v| match agg {
            0 => *v,
            1 => log10ish(*v),
            _ => log10ish(v * 10.0),
        })
        .sum()
}

/// Ordered selections of distinct symbols.
fn symbol_lists() -> Vec<Vec<usize>> {
    let mut v = vec![vec![0], vec![1], vec![2]];
    for a in 0..3 {
        for b in 0..3 {
            if a != b {
                v.push(vec![a, b]);
                v.push(vec![a, b, 3 - a - b]);
            }
        }
    }
    v
}

fn order(ch: &mut Ch, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    while !left.is_empty() {
        let i = ch.pick(left.len());
        out.push(left.remove(i));
    }
    out
}

/// A division of `n` into contiguous chunks.
fn chunks(ch: &mut Ch, n: usize) -> Vec<std::ops::Range<usize>> {
    let mut v = vec![];
    let mut from = 0;
    for i in 1..=n {
        if i == n || ch.flag() {
            v.push(from..i);
            from = i;
        }
    }
    v
}

fn c24(run: &mut Run) {
    run.assume("statistics of a backtest are the quick ones (C17) and the backtest itself is the real one (C01-C07)");
    let d = data();
    let d = &d;
    let kinds = genes::strategy_kinds();
    let kinds = &kinds;
    let cache: HashMap<(usize, usize, usize, usize, usize, usize, u32), f64> = HashMap::new();
    let _ = cache;
    run.section("fitness", "28 strategies x 3 stop losses x 3 take profits x 3 intervals x 2 colours x 2 quotes x 4 statistics x 3 aggregations x all 15 ordered lists of symbols", |ch| {
        let k = (ch.of(kinds).clone(), *ch.of(&["Noop", "Trailing", "BasicPlusTrailing"]), *ch.of(&["Noop", "Legacy", "Trending"]));
        let interval = *ch.of(&[HOUR, 4 * HOUR, 6 * HOUR]);
        let mut v = person(&k, ch.pick(2) as u32, interval);
        if v["strategy"].get("buffer_interval").is_some() {
            v["strategy"]["buffer_interval"] = json!(interval * 2);
        }
        let p = parse(&v);
        // A tiny quote gives profits around zero.
        let quote = *ch.of(&[50.0, 0.005]);
        let mut traded = 0;
        for stat in 0..4 {
            let values: Vec<f64> = (0..3).map(|s| symbol_value_of(d, &p, s, stat, quote)).collect();
            if values.iter().any(|v| *v < 0.0 && *v > -1e-3) {
                ch.hit("barely losing");
            }
            traded += values.iter().filter(|v| **v != 0.0).count();
            for agg in 0..3 {
                for list in symbol_lists() {
                    let symbols = names(&list);
                    let e = evaluation_of(d, &symbols, stat, agg, quote);
                    let mut pop = vec![Individual { chromosome: p, fitness: 0.125 }];
                    guarded(|| e.evaluate(&mut pop)).map_err(|e| Stop::Fail(format!("evaluating {v} panicked: {e}")))?;
                    let want = aggregate(agg, &list.iter().map(|s| values[*s]).collect::<Vec<_>>());
                    let got = pop[0].fitness;
                    ensure!(
                        got == want || close(got, want, 1e-9, 1e-9),
                        "{v}: fitness {got} instead of {want} (statistic {stat}, aggregation {agg}, symbols {symbols:?}, values {values:?})"
                    );
                    ensure!(text(&pop[0].chromosome) == v, "evaluation altered {v}");
                    ch.state(H::new().f(got).get());
                    ch.trans(list.len());
                }
            }
        }
        ch.hit(if traded > 0 { "with trades" } else { "without trades" });
        note!(ch, "{v}");
        ch.validated();
        Ok(())
    });
    run.section("monotone", "logarithmic aggregations of two symbols' values on the real fold: a better value never ranks lower", |ch| {
        // Individuals whose first symbol's values differ while the second's agree cannot be had at will,
        // so single symbol fitness is compared instead: the order of the values is that of the fitness.
        let stat = ch.pick(4);
        let agg = ch.pick(3);
        let s = ch.pick(3);
        let e = evaluation(d, &names(&[s]), stat, agg);
        let mut v: Vec<(f64, f64)> = vec![];
        for k in kinds.iter() {
            for c in 0..2 {
                let p = parse(&person(&(k.clone(), "Basic", "Basic"), c, HOUR * 4));
                let mut pop = vec![Individual { chromosome: p, fitness: 0.0 }];
                e.evaluate(&mut pop);
                v.push((symbol_value(d, &p, s, stat), pop[0].fitness));
            }
        }
        v.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        for w in v.windows(2) {
            ensure!(w[0].1 <= w[1].1 && (w[0].0 == w[1].0 || w[0].1 < w[1].1 || w[1].0 - w[0].0 < 1e-9 || w[0].1 == f64::NEG_INFINITY), "values {} < {} have fitness {} and {}", w[0].0, w[1].0, w[0].1, w[1].1);
        }
        note!(ch, "{v:?}");
        ch.state(H::new().u((stat * 100 + agg * 10 + s) as u64).get());
        ch.trans(v.len());
        ch.validated();
        Ok(())
    });
    let most = run.deep(5, 6);
    run.section("divisions", &format!("populations of up to {most} in every order, divided into every sequence of contiguous chunks evaluated in every order"), |ch| {
        let n = 1 + ch.pick(most);
        let pool: Vec<TradingParams> = (0..n).map(|i| parse(&person(&(kinds[[0, 3, 4, 17, 8, 20][i]].clone(), "Trailing", "Legacy"), 0, [HOUR, 4 * HOUR][i % 2]))).map(|mut p| {
            if let juno::strategies::StrategyParams::Sig(s) = &mut p.strategy {
                s.buffer_interval = None;
            }
            p
        }).collect();
        let stat = ch.pick(4);
        let perm = order(ch, n);
        let parts = if n == most { vec![0..n / 2, n / 2..n] } else { chunks(ch, n) };
        let turn = order(ch, parts.len());
        let e = evaluation(d, &names(&[2, 0]), stat, 0);
        // Whatever fitness was there before does not matter.
        let mut pop: Vec<Individual<TradingParams>> = perm.iter().map(|i| Individual { chromosome: pool[*i], fitness: *i as f64 }).collect();
        for t in &turn {
            e.evaluate(&mut pop[parts[*t].clone()]);
        }
        for (i, x) in perm.iter().zip(&pop) {
            let mut alone = vec![Individual { chromosome: pool[*i], fitness: f64::MIN }];
            e.evaluate(&mut alone);
            ensure!(alone[0].fitness.to_bits() == x.fitness.to_bits(), "{} has fitness {} alone and {} among {perm:?} divided into {parts:?}", text(&pool[*i]), alone[0].fitness, x.fitness);
        }
        note!(ch, "order {perm:?} chunks {parts:?} in order {turn:?}");
        ch.state(perm.iter().chain(&turn).fold(H::new().u(n as u64), |h, x| h.u(*x as u64)).get());
        ch.trans(n);
        ch.validated();
        Ok(())
    });
    threads(run, d);
}

/// The same populations on pools of several sizes.
fn threads(run: &mut Run, d: &Data) {
    run.section_n("threads", "a population of 56 on pools of 1 to 8 threads, 4 statistics", 1, |ch| {
        let stat = ch.pick(4);
        let n = 1 + ch.pick(8);
        let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
        let e = evaluation(d, &names(&[0, 1, 2]), stat, 0);
        let people: Vec<TradingParams> = genes::strategy_kinds()
            .iter()
            .flat_map(|k| [0, 1].map(|c| person(&(k.clone(), "Basic", "Basic"), c, 6 * HOUR)))
            .map(|mut v| {
                if v["strategy"].get("buffer_interval").is_some() {
                    v["strategy"]["buffer_interval"] = Value::Null;
                }
                parse(&v)
            })
            .collect();
        let mut pop: Vec<_> = people.iter().map(|p| Individual { chromosome: *p, fitness: 0.0 }).collect();
        pool.install(|| e.evaluate(&mut pop));
        for x in &pop {
            let mut alone = vec![Individual { chromosome: x.chromosome, fitness: 1.0 }];
            e.evaluate(&mut alone);
            ensure!(alone[0].fitness.to_bits() == x.fitness.to_bits(), "{} has fitness {} alone and {} on {n} threads", text(&x.chromosome), alone[0].fitness, x.fitness);
        }
        note!(ch, "{n} threads");
        ch.state(H::new().u(n as u64).u(stat as u64).get());
        ch.trans(pop.len());
        ch.validated();
        Ok(())
    });
}

/// The real evaluation, with the work divided and ordered as told.
struct Divided {
    inner: BasicEvaluation,
    mask: usize,
    order: usize,
}
impl Evaluation for Divided {
    type Chromosome = TradingParams;
    fn evaluate(&self, population: &mut [Individual<TradingParams>]) {
        let n = population.len();
        let mut parts = vec![];
        let mut from = 0;
        for i in 1..=n {
            if i == n || self.mask >> ((i - 1) % 4) & 1 == 1 {
                parts.push(from..i);
                from = i;
            }
        }
        // The order of the chunks, by its number.
        let mut k = self.order;
        let mut left: Vec<_> = parts;
        while !left.is_empty() {
            let i = k % left.len();
            k /= left.len().max(1);
            let r = left.remove(i);
            self.inner.evaluate(&mut population[r]);
        }
    }
}

/// Everything about an evolution, bit for bit.
fn record<E: Evaluation<Chromosome = TradingParams>>(e: E, seed: Option<u64>, pop: usize, gens: usize, ctx: &TradingParamsContext, sel: usize) -> (u64, Vec<String>) {
    fn quiet(_: usize, _: &Generation<TradingParams>) {}
    let (c, m) = (UniformCrossover::new(0.5), UniformMutation::new(0.25));
    let r = match sel {
        0 => GeneticAlgorithm::new(e, EliteSelection { shuffle: false }, c, m, EliteReinsertion::new(0.75, 0.5)).evolve(pop, gens, pop, seed, quiet, ctx),
        1 => GeneticAlgorithm::new(e, EliteSelection { shuffle: true }, c, m, EliteReinsertion::new(0.5, 0.25)).evolve(pop, gens, pop, seed, quiet, ctx),
        2 => GeneticAlgorithm::new(e, TournamentSelection::default(), c, m, FitnessReinsertion::new(1.5)).evolve(pop, gens, pop, seed, quiet, ctx),
        _ => GeneticAlgorithm::new(e, GenerateRandomSelection {}, c, m, PureReinsertion {}).evolve(pop, gens, pop, seed, quiet, ctx),
    };
    let g = r
        .generations
        .iter()
        .map(|g| g.hall_of_fame.iter().map(|i| format!("{} {:016x}", text(&i.chromosome), i.fitness.to_bits())).collect::<Vec<_>>().join("\n"))
        .collect();
    (r.seed, g)
}

const SEEDS: [u64; 6] = [0, 1, 2, 42, 1 << 40, u64::MAX];

fn evolution_ctx(k: usize) -> TradingParamsContext {
    serde_json::from_value(match k {
        0 => json!({"trader": {"intervals": [HOUR, 4 * HOUR, 6 * HOUR]}}),
        // Everything that involves a choice from a collection.
        1 => json!({"trader": {"intervals": [HOUR, 4 * HOUR]}, "take_profit": {"type": "Trending"}, "strategy": {"type": "SigOsc"}}),
        _ => json!({"trader": {"intervals": [6 * HOUR]}, "strategy": {"type": "Sig", "sig": {"type": "DoubleMA"}, "persistence": 1}, "stop_loss": {"type": "Trailing", "up_threshold": 0.25}}),
    })
    .unwrap()
}

fn digest(g: &[String]) -> u64 {
    g.iter().fold(H::new(), |h, s| h.s(s)).get()
}

fn child() -> ! {
    let d = data();
    for seed in SEEDS {
        for ctx in 0..3 {
            for sel in 0..4 {
                let (s, g) = record(evaluation(&d, &names(&[0, 2, 1]), sel, ctx), Some(seed), 12, 3, &evolution_ctx(ctx), sel);
                println!("{seed} {ctx} {sel} {s} {:016x} {}", digest(&g), g[3].lines().next().unwrap());
            }
        }
    }
    std::process::exit(0)
}

/// A library that answers getrandom with fixed bytes, so that hash seeds can be chosen.
fn hash_seed_library() -> Option<std::path::PathBuf> {
    let dir = std::path::PathBuf::from(std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into()));
    let (src, lib) = (dir.join("hashseed.c"), dir.join(format!("hashseed-{}.so", std::process::id())));
    std::fs::write(
        &src,
        "#include <stdlib.h>\n#include <sys/types.h>\nssize_t getrandom(void *buf, size_t n, unsigned f) {\n  unsigned long x = strtoul(getenv(\"MC_HASH_SEED\"), 0, 10) * 0x9E3779B97F4A7C15ul + 12345;\n  for (size_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; ((unsigned char *)buf)[i] = x >> 24; }\n  (void)f; return n;\n}\n",
    )
    .ok()?;
    let ok = std::process::Command::new("gcc").args(["-shared", "-fPIC", "-O1", "-o"]).arg(&lib).arg(&src).status().ok()?.success();
    ok.then_some(lib)
}

fn c23(run: &mut Run) {
    run.assume("hash seeds and thread schedules of the runtime are chosen from a set (seeds) or left to the operating system (threads); divisions and orders of the evaluation work are enumerated");
    let d = data();
    let d = &d;
    run.section("divisions", "4 operator combinations x 3 contexts x 6 seeds: population 6, 3 generations, with the evaluations of every batch divided in 16 ways and done in 24 orders, against the undivided run", |ch| {
        let (sel, ctx, seed) = (ch.pick(4), ch.pick(3), *ch.of(&SEEDS));
        let ctx = evolution_ctx(ctx);
        let base = record(evaluation(d, &names(&[1, 0]), sel, 0), Some(seed), 6, 3, &ctx, sel);
        ensure!(base.0 == seed, "seed {} reported instead of {seed}", base.0);
        let mask = ch.pick(16);
        for order in 0..24 {
            let r = record(Divided { inner: evaluation(d, &names(&[1, 0]), sel, 0), mask, order }, Some(seed), 6, 3, &ctx, sel);
            if let Some(k) = (0..base.1.len()).find(|k| base.1[*k] != r.1[*k]) {
                fail!("seed {seed}: generation {k} depends on how the evaluation is divided (mask {mask}, order {order}):\n{}\n{}", base.1[k], r.1[k]);
            }
        }
        note!(ch, "seed {seed}: {}", base.1[3].lines().next().unwrap());
        ch.state(digest(&base.1));
        ch.trans(24 * 4);
        ch.validated();
        Ok(())
    });
    run.section_n("threads", "4 operator combinations x 3 contexts x 6 seeds on pools of 1, 2, 3 and 8 threads", 1, |ch| {
        let n = *ch.of(&[1usize, 2, 3, 8]);
        let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
        let (sel, c) = (ch.pick(4), ch.pick(3));
        for seed in SEEDS {
            let ctx = evolution_ctx(c);
            let base = record(evaluation(d, &names(&[1, 0, 2]), sel, 1), Some(seed), 16, 3, &ctx, sel);
            let r = pool.install(|| record(evaluation(d, &names(&[1, 0, 2]), sel, 1), Some(seed), 16, 3, &ctx, sel));
            ensure!(base == r, "seed {seed} evolves differently on {n} threads");
            ch.state(digest(&r.1));
            ch.trans(4);
        }
        note!(ch, "{n} threads, operators {sel}, context {c}");
        ch.validated();
        Ok(())
    });
    run.section("drawn seeds", "without a seed: 7 drawn seeds (extremes included) x 4 operator combinations: reported, in use and reproducible", |ch| {
        let sel = ch.pick(4);
        let k = ch.pick(7);
        let ctx = evolution_ctx(0);
        let (seed, g) = first_draw(move |n| [0, 1, 2, n / 2, n - 2, n - 1, 12345][k], || record(evaluation(d, &names(&[2]), 0, 0), None, 6, 2, &ctx, sel));
        let again = record(evaluation(d, &names(&[2]), 0, 0), Some(seed), 6, 2, &ctx, sel);
        ensure!(again.0 == seed && again.1 == g, "the reported seed {seed} does not reproduce the evolution");
        let other = record(evaluation(d, &names(&[2]), 0, 0), Some(seed ^ 0x55), 6, 2, &ctx, sel);
        ensure!(other.1 != g, "the seed makes no difference");
        note!(ch, "seed {seed}: {}", g[2].lines().next().unwrap());
        ch.state(digest(&g));
        ch.trans(3);
        ch.validated();
        Ok(())
    });
    let many = run.deep(16, 64);
    let lib = hash_seed_library();
    if lib.is_none() {
        run.assume("gcc is missing: hash seeds are left to the operating system");
    }
    let exe = std::env::current_exe().unwrap();
    let (lib, exe) = (&lib, &exe);
    let spawn = |k: usize| {
        let mut c = std::process::Command::new(exe);
        c.arg("--child").env("RAYON_NUM_THREADS", (1 + k % 4).to_string());
        if let Some(l) = lib {
            c.env("LD_PRELOAD", l).env("MC_HASH_SEED", k.to_string());
        }
        let o = c.output().unwrap();
        assert!(o.status.success(), "harness: child failed: {}", String::from_utf8_lossy(&o.stderr));
        String::from_utf8(o.stdout).unwrap()
    };
    let first = spawn(0);
    let first = &first;
    run.section("processes", &format!("{many} processes of differing hash seeds and thread counts, each running 72 evolutions over three symbols"), |ch| {
        let k = ch.pick(many);
        let other = spawn(k);
        let (a, b): (Vec<_>, Vec<_>) = (first.lines().collect(), other.lines().collect());
        ensure!(a.len() == 72 && b.len() == 72, "harness: {} and {} lines", a.len(), b.len());
        for (x, y) in a.iter().zip(&b) {
            ensure!(x == y, "another process evolves differently (seed, context, operators, ...):\n{x}\n{y}");
            ch.state(H::new().s(y).get());
        }
        note!(ch, "process {k}");
        ch.trans(72);
        ch.validated();
        Ok(())
    });
    if let Some(l) = lib {
        let _ = std::fs::remove_file(l);
    }
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--child") {
        child();
    }
    main_with(&[("C18", c18), ("C19", c19), ("C20", c20), ("C21", c21), ("C22", c22), ("C23", c23), ("C24", c24)])
}
