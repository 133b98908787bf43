//! The record processing commands, as black boxes.
use crate::cli::{Cli, Job, Out, job};

pub struct Cmd {
    pub name: &'static str,
    /// command and options that come before the filter options
    pub pre: &'static [&'static str],
    /// positional arguments before the inputs
    pub pos: &'static [&'static str],
    /// has the common filter options
    pub filt: bool,
}

pub const RULES: &str = "[rule.T1]\ncheck = \"filter\"\nfilter = \"012A/*.a == 'x'\"\n";

pub const CMDS: &[Cmd] = &[
    Cmd { name: "concat", pre: &["concat"], pos: &[], filt: false },
    Cmd { name: "concat -u", pre: &["concat", "-u", "--unique-strategy", "hash"], pos: &[], filt: false },
    Cmd { name: "convert", pre: &["convert", "-t", "plain"], pos: &[], filt: false },
    Cmd { name: "convert json", pre: &["convert", "-t", "json"], pos: &[], filt: false },
    Cmd { name: "filter", pre: &["filter"], pos: &["003@? || !003@?"], filt: false },
    Cmd { name: "count", pre: &["count", "--csv"], pos: &[], filt: true },
    Cmd { name: "describe", pre: &["describe", "--csv", "-o", "d.csv"], pos: &[], filt: true },
    Cmd { name: "explode main", pre: &["explode"], pos: &["main"], filt: true },
    Cmd { name: "explode local", pre: &["explode"], pos: &["local"], filt: true },
    Cmd { name: "explode copy", pre: &["explode"], pos: &["copy"], filt: true },
    Cmd { name: "frequency", pre: &["frequency"], pos: &["012A/*.a"], filt: true },
    Cmd { name: "hash", pre: &["hash"], pos: &[], filt: true },
    Cmd { name: "partition", pre: &["partition", "-t", "{}.dat"], pos: &["003@.0"], filt: true },
    Cmd { name: "print", pre: &["print"], pos: &[], filt: true },
    Cmd { name: "sample", pre: &["sample", "--seed", "7"], pos: &["2"], filt: true },
    Cmd { name: "select", pre: &["select"], pos: &["003@.0, 012A/*.a"], filt: true },
    Cmd { name: "slice", pre: &["slice"], pos: &[], filt: true },
    Cmd { name: "split", pre: &["split"], pos: &["2"], filt: true },
    Cmd { name: "check", pre: &["check", "-R", "rules.toml"], pos: &[], filt: true },
];

pub fn by_name(n: &str) -> &'static Cmd {
    CMDS.iter().find(|c| c.name == n).unwrap()
}

impl Cmd {
    pub fn job<'a, S: AsRef<str>>(&self, opts: &[S], inputs: &[&str]) -> Job<'a> {
        let mut a: Vec<String> =
            self.pre.iter().map(|s| s.to_string()).collect();
        a.extend(opts.iter().map(|s| s.as_ref().to_string()));
        a.extend(self.pos.iter().map(|s| s.to_string()));
        a.extend(inputs.iter().map(|s| s.to_string()));
        let j = job(&a);
        if self.name == "check" {
            j.file("rules.toml", RULES.as_bytes())
        } else {
            j
        }
    }
    /// Runs the command on one input file in.dat.
    pub fn on(&self, cli: &Cli, opts: &[&str], input: &[u8]) -> Out {
        cli.run(&self.job(opts, &["in.dat"]).file("in.dat", input))
    }
}

/// The effects of a run: standard output and files.
pub fn effects(o: &Out) -> (Vec<u8>, std::collections::BTreeMap<String, Vec<u8>>) {
    (o.out.clone(), o.files.clone())
}
