//! Dataset properties: what is printed can be set, what is set is what was meant, and nothing else is accepted.
use crate::property::*;
use mon::*;
use serde_json::json;
use speedy::{Readable, Writable};

fn rand_str(rng: &mut Rng) -> String {
    let n = rng.usize(24);
    (0..n).map(|_| *rng.pick(&['/', 'a', 'z', '=', ' ', ',', '0', '9', 'é', '\t', '-', '_', '.', 'M', '\u{1F600}', '"', '\'', '\\', ':'])).collect()
}
pub fn property() {
    let mut c = Check::new("C12", "exhaustive-small+random", "distinct property values, names, sources and strings put through printing, parsing and encoding");
    macro_rules! wire { ($t:ty, $v:expr) => {{ let v: $t = $v.clone(); let b = v.write_to_vec().map_err(|e| ("wire", format!("{v:?} does not encode: {e}")))?; match <$t>::read_from_buffer(&b) { Ok(w) if w == v => (), x => return Err(("wire", format!("{v:?} is encoded and read back as {x:?}"))) } let j = serde_json::to_string(&v).map_err(|e| ("serde", format!("{v:?}: {e}")))?; match serde_json::from_str::<$t>(&j) { Ok(w) if w == v => (), x => return Err(("serde", format!("{v:?} is serialized and read back as {x:?}"))) } }}; }
    let check = |p: &Property| -> Result<(), (&'static str, String)> {
        wire!(Property, p);
        let name = p.name(); wire!(PropertyName, name);
        match name.to_string().parse::<PropertyName>() { Ok(n) if n == name => (), x => return Err(("name", format!("{name:?} is printed {name} and read back as {x:?}"))) }
        let text = format!("{name}={p}");
        let settable = matches!(p, Property::Atime(_) | Property::Mountpoint(_) | Property::RecordSize(_));
        match (settable, text.parse::<Property>()) {
            (true, Ok(q)) if q == *p => Ok(()),
            (false, Err(ParsePropertyError::ReadOnly)) => Ok(()),
            (_, x) => Err(("roundtrip", format!("{p:?} is printed as {text:?}, which is read back as {x:?}"))),
        }
    };
    let mut run = |c: &mut Check, p: Property| {
        c.eval(); c.distinct(hash(&format!("{p:?}"))); c.count("properties", 1); c.sample(json!(format!("{p:?}")));
        match guard(|| check(&p)) { Ok(Ok(())) => (), Ok(Err((k, e))) => c.violation(k, &json!({"what": e})), Err(e) => c.violation("panic", &json!({"property": format!("{p:?}"), "panic": e})) }
    };
    for b in [true, false] { run(&mut c, Property::Atime(b)); }
    for i in 12..=20 { run(&mut c, Property::RecordSize(i)); }
    for s in ["", "/", "/mnt", "a=b", "=", "/a b", "on", "off", "a,b", "\u{1F600}"] { for p in [Property::Mountpoint(s.into()), Property::BaseMountpoint(s.into()), Property::Name(s.into())] { run(&mut c, p); } }
    let n = c.n(20_000, 1_000_000);
    for i in 0..n {
        if !c.time_left() { break; }
        let mut rng = Rng::case(c.seed, i); let s = rand_str(&mut rng);
        run(&mut c, match rng.below(3) { 0 => Property::Mountpoint(s), 1 => Property::BaseMountpoint(s), _ => Property::Name(s) });
    }
    // what may be set: exactly this
    let expect = |s: &str| -> Result<Property, &'static str> {
        let (n, v) = match s.split_once('=') { Some((n, v)) => (n, Some(v)), None => (s, None) };
        match n {
            "atime" => match v.unwrap_or("on") { "on" | "true" => Ok(Property::Atime(true)), "off" | "false" => Ok(Property::Atime(false)), _ => Err("value") },
            "mountpoint" => v.map(|v| Property::Mountpoint(v.into())).ok_or("noequals"),
            "basemountpoint" | "name" => if v.is_some() { Err("readonly") } else { Err("noequals") },
            "recordsize" | "recsize" => match v { None => Err("noequals"), Some(v) => {
                // plain decimal; a leading + is as the integer syntax has it
                match v.parse::<u64>() { Ok(x) if x.is_power_of_two() && (4096..=1 << 20).contains(&x) => Ok(Property::RecordSize(x.trailing_zeros() as u8)), Ok(1_048_776) => Ok(Property::RecordSize(20)), _ => Err("value") } } },
            _ => Err("name"),
        }
    };
    let names = ["atime", "mountpoint", "basemountpoint", "name", "recordsize", "recsize", "Atime", "", "atim", "atimee", "record_size", " atime", "recsize "];
    let vals = ["on", "off", "true", "false", "", "On", "yes", "0", "1", "/mnt", "a=b", "4096", "04096", "4095", "4097", "8192", "16384", "32768", "65536", "131072", "262144", "524288", "1048576", "2097152", "2048", "1048575", "1048577", "-4096", "4096.0", "4k", "99999999999999999999999", "131072 "];
    let mut strs: Vec<String> = names.iter().map(|s| s.to_string()).collect();
    for n in names { for v in vals { strs.push(format!("{n}={v}")); } }
    // only = separates, and only the first one
    for n in &names[..6] { for v in ["on", "off", "4096", "/mnt", ""] { for sep in [":", " ", "==", "/", "\t", " = ", ";", ",", " =", "= ", "\u{ff1d}", "=\n", "."] { strs.push(format!("{n}{sep}{v}")); strs.push(format!("{n}{sep}{v}={v}")); strs.push(format!("{n}={v}{sep}{v}")); } } }
    for p in 0..70 { for d in [-1i64, 0, 1] { if p < 62 { strs.push(format!("recordsize={}", (1i64 << p) + d)); } } }
    for i in 0..c.n(20_000, 500_000) { let mut rng = Rng::case(c.seed, 77_000_000 + i); let n = rng.pick(&names).to_string(); let v = match rng.below(4) { 0 => rand_str(&mut rng), 1 => (rng.next() >> rng.below(64)).to_string(), 2 => (1u64 << rng.range(8, 24)).to_string(), _ => rng.pick(&vals).to_string() }; strs.push(format!("{n}={v}")); }
    for s in strs {
        c.eval(); c.distinct(hash(&s)); c.count("strings", 1);
        let want = expect(&s);
        match guard(|| s.parse::<Property>()) {
            Err(e) => c.violation("panic", &json!({"string": s, "panic": e})),
            Ok(got) => {
                let g = match &got { Ok(p) => Ok(p.clone()), Err(ParsePropertyError::NoEquals) => Err("noequals"), Err(ParsePropertyError::Name(_)) => Err("name"), Err(ParsePropertyError::ReadOnly) => Err("readonly"), Err(ParsePropertyError::Value(_)) => Err("value") };
                if g.is_ok() != want.is_ok() || (g.is_ok() && g != want) { c.violation("parse", &json!({"string": s, "got": format!("{got:?}"), "expected": format!("{want:?}")})); }
                else if g != want { c.violation("parse-error", &json!({"string": s, "got": format!("{got:?}"), "expected": format!("{want:?}")})); }
            }
        }
    }
    // inheritance bookkeeping, defaults and sources
    let r = guard(|| -> Result<(), (&'static str, String)> {
        for b in [true, false] { let p = Property::Atime(b); if p.clone().inheritable() != p || p.as_bool() != b { return Err(("inherit", "atime".into())); } }
        for s in ["", "/x", "/a/b=c"] {
            if Property::Mountpoint(s.into()).inheritable() != Property::BaseMountpoint(s.into()) { return Err(("inherit", "what children inherit of a mountpoint is not its base mountpoint".into())); }
            if Property::BaseMountpoint(s.into()).inheritable() != Property::BaseMountpoint(s.into()) { return Err(("inherit", "base mountpoint".into())); }
            if Property::Mountpoint(s.into()).as_str() != s || Property::BaseMountpoint(s.into()).as_str() != s || Property::Name(s.into()).as_str() != s || Property::mountpoint(s) != Property::Mountpoint(s.into()) { return Err(("accessor", s.into())); }
        }
        for i in 0..=255u8 { if Property::RecordSize(i).inheritable() != Property::RecordSize(i) || Property::RecordSize(i).as_u8() != i { return Err(("inherit", format!("record size {i}"))); } }
        for (n, i) in [(PropertyName::Atime, PropertyName::Atime), (PropertyName::Mountpoint, PropertyName::BaseMountpoint), (PropertyName::BaseMountpoint, PropertyName::BaseMountpoint), (PropertyName::RecordSize, PropertyName::RecordSize)] { if n.inheritable() != i { return Err(("inherit", format!("{n:?} is inherited as {:?}", n.inheritable()))); } }
        if Property::default_value(PropertyName::Atime) != Property::Atime(true) || Property::default_value(PropertyName::RecordSize) != Property::RecordSize(17) || Property::default_value(PropertyName::BaseMountpoint) != Property::BaseMountpoint("".into()) { return Err(("default", "a documented default differs".into())); }
        for n in [PropertyName::Atime, PropertyName::RecordSize, PropertyName::BaseMountpoint] { if Property::default_value(n).name() != n { return Err(("default", format!("the default of {n:?} has another name"))); } }
        // A source is printed as what it is, and every printed source can be read
        for s in [PropertySource::Default, PropertySource::None].into_iter().chain((0..=255).map(PropertySource::Set)) {
            wire!(PropertySource, s);
            let t = s.to_string(); let back = t.parse::<PropertySource>();
            let inherited = matches!(s, PropertySource::Set(i) if i > 0);
            if s.is_inherited() != inherited { return Err(("source", format!("{s:?}.is_inherited() is {}", s.is_inherited()))); }
            match back { Ok(b) if b == s || (inherited && b.is_inherited()) => (), x => return Err(("source", format!("{s:?} is printed {t:?}, which is read as {x:?}"))) }
        }
        if PropertySource::LOCAL != PropertySource::Set(0) || PropertySource::FROM_PARENT != PropertySource::Set(1) || PropertySource::FROM_GRANDPARENT != PropertySource::Set(2) { return Err(("source", "levels".into())); }
        for s in ["", "Default", "locale", "inherit"] { if s.parse::<PropertySource>().is_ok() { return Err(("source", format!("{s:?} is taken for a source"))); } }
        Ok(())
    });
    c.evals(300); c.count("sources", 258);
    match r { Ok(Ok(())) => (), Ok(Err((k, e))) => c.violation(k, &json!({"what": e})), Err(e) => c.violation("panic", &json!({"panic": e})) }
    c.finish()
}
