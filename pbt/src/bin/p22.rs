//! P22 Export of lines to an .obj file.  Writes only inside a scratch
//! directory which is removed again.
use linestring::linestring_3d::{save_to_obj_file, Line3};
use linestring::LinestringError;
use pbt::gen::*;
use pbt::*;
use std::collections::HashSet;
use std::path::PathBuf;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: Ty3,
    pool: Vec<[Fl; 3]>,
    /// lines as indices into the pool
    lines: Vec<Vec<(u8, u8)>>,
    name: String,
    /// length of a file already there
    old: u16,
    missing_dir: bool,
}

fn scratch() -> PathBuf {
    let id = format!("{:?}", std::thread::current().id());
    let id: String = id.chars().filter(|c| c.is_ascii_digit()).collect();
    std::env::temp_dir().join(format!("pbt-obj-{}", std::process::id())).join(id)
}

fn run<V: GenericVector3>(c: &Case, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
{
    let dir = scratch();
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let pool: Vec<V> = c.pool.iter().map(|p| v3(p[0].0, p[1].0, p[2].0)).collect();
    let n = pool.len();
    let lines: Vec<Vec<Line3<V>>> = c
        .lines
        .iter()
        .map(|l| {
            l.iter()
                .filter(|_| n > 0)
                .map(|(a, b)| Line3::new(pool[*a as usize % n], pool[*b as usize % n]))
                .collect()
        })
        .collect();
    if c.missing_dir {
        let r = save_to_obj_file(dir.join("no-such-directory").join("f.obj"), &c.name, &lines);
        ensure!(matches!(r, Err(LinestringError::IoError(_))), "no error for a path which cannot be written: {r:?}");
        rec.label("io-error");
        return Ok(());
    }
    let path = dir.join("f.obj");
    if c.old > 0 {
        std::fs::write(&path, "l 1 1\n".repeat(c.old as usize)).map_err(|e| e.to_string())?;
    } else {
        let _ = std::fs::remove_file(&path);
    }
    save_to_obj_file(&path, &c.name, &lines).map_err(|e| format!("{e:?}"))?;
    let text = std::fs::read_to_string(&path).map_err(|e| e.to_string())?;
    // read it back the way the format is defined
    let (mut vs, mut ls, mut names): (Vec<[f64; 3]>, Vec<(usize, usize)>, Vec<&str>) = (vec![], vec![], vec![]);
    for (no, raw) in text.lines().enumerate() {
        if let Some(name) = raw.strip_prefix("o ") {
            names.push(name);
            ensure!(vs.is_empty() && ls.is_empty(), "the object is not named before its elements");
            continue;
        }
        let line = raw.split('#').next().unwrap();
        let mut t = line.split_whitespace();
        match t.next() {
            None => (),
            Some("v") => {
                let y: Vec<f64> = t
                    .map(|s| if V::Scalar::IS_F32 { s.parse::<f32>().map(|x| x as f64) } else { s.parse::<f64>() })
                    .collect::<Result<_, _>>()
                    .map_err(|e| format!("line {no}: {raw:?}: {e}"))?;
                ensure!(y.len() == 3, "line {no}: {raw:?}");
                vs.push([y[0], y[1], y[2]]);
            }
            Some("l") => {
                let i: Vec<usize> = t
                    .map(|s| s.parse::<usize>().map_err(|e| format!("line {no}: {raw:?}: {e}")))
                    .collect::<Result<_, _>>()?;
                ensure!(i.len() == 2, "line {no}: {raw:?}");
                ensure!(i.iter().all(|i| *i >= 1 && *i <= vs.len()), "line {no}: {raw:?} of {} vertices", vs.len());
                ls.push((i[0] - 1, i[1] - 1));
            }
            Some(k) => return Err(format!("line {no}: unknown element {k:?}")),
        }
    }
    ensure!(names == [c.name.as_str()], "object names {names:?}, expected {:?}", c.name);
    let want: Vec<(V, V)> = lines.iter().flatten().map(|l| (l.start, l.end)).collect();
    ensure!(ls.len() == want.len(), "{} lines written, {} given", ls.len(), want.len());
    for (k, ((i, j), (a, b))) in ls.iter().zip(&want).enumerate() {
        ensure!(
            vs[*i] == xyz(*a) && vs[*j] == xyz(*b),
            "line {k} reads back as {:?} {:?} instead of {:?} {:?}",
            vs[*i], vs[*j], xyz(*a), xyz(*b)
        );
    }
    // no vertex more than needed (but 0 and -0 may be told apart)
    let key = |p: [f64; 3]| p.map(|x| x.to_bits());
    let distinct: HashSet<[u64; 3]> = want.iter().flat_map(|(a, b)| [key(xyz(*a)), key(xyz(*b))]).collect();
    let written: HashSet<[u64; 3]> = vs.iter().map(|v| key(*v)).collect();
    ensure!(written.len() == vs.len(), "duplicated vertices in {vs:?}");
    ensure!(written.is_subset(&distinct), "vertices nobody uses: {vs:?}");
    rec.label_if(want.is_empty(), "empty");
    rec.label_if(c.old > 0, "overwrite");
    rec.label_if(vs.len() < 2 * ls.len(), "shared-vertices");
    rec.nontrivial_if(ls.len() > 1 && vs.len() > 2 && vs.len() < 2 * ls.len());
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FullCase {
    ty: Ty3,
    pool: Vec<[Fl; 3]>,
    lines: Vec<(u8, u8)>,
    name: String,
    /// the part of the file there is room for
    room: u16,
}
/// No file of this process may grow beyond the limit until this is dropped.
struct Limit(libc::rlimit);
impl Limit {
    fn new(bytes: u64) -> Self {
        unsafe {
            let _ = libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let mut old: libc::rlimit = std::mem::zeroed();
            assert_eq!(libc::getrlimit(libc::RLIMIT_FSIZE, &mut old), 0);
            let new = libc::rlimit { rlim_cur: bytes as libc::rlim_t, rlim_max: old.rlim_max };
            assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &new), 0);
            Limit(old)
        }
    }
}
impl Drop for Limit {
    fn drop(&mut self) {
        unsafe {
            let _ = libc::setrlimit(libc::RLIMIT_FSIZE, &self.0);
        }
    }
}
/// A file which can't be written to the end is an error, wherever that happens.
fn full<V: GenericVector3>(c: &FullCase, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
{
    let dir = scratch();
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let pool: Vec<V> = c.pool.iter().map(|p| v3(p[0].0, p[1].0, p[2].0)).collect();
    let n = pool.len();
    let lines = vec![c.lines.iter().map(|(a, b)| Line3::new(pool[*a as usize % n], pool[*b as usize % n])).collect::<Vec<_>>()];
    let path = dir.join("full.obj");
    save_to_obj_file(&path, &c.name, &lines).map_err(|e| format!("{e:?}"))?;
    let len = std::fs::metadata(&path).map_err(|e| e.to_string())?.len();
    let room = len * c.room as u64 / 65536;
    let limit = Limit::new(room);
    let r = save_to_obj_file(&path, &c.name, &lines);
    drop(limit);
    let got = std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0);
    ensure!(got <= room, "the fault was not injected: {got} bytes written, limit {room}");
    ensure!(matches!(r, Err(LinestringError::IoError(_))), "only {room} of {len} bytes could be written: {r:?}");
    rec.label(if len > 8192 { "large" } else { "small" });
    rec.nontrivial_if(room > 0);
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new(
        "P22",
        "groups of lines over a pool of points (shared, repeated, signed zeros, full-precision floats of any magnitude, subnormals) written over missing, shorter and longer files; the same with a limit to the file size anywhere in the output (injected fault); non-trivial = several lines sharing vertices, or a fault after the first byte",
    );
    ctx.assume("coordinates are finite, object names hold no line break; 0 and -0 may be one vertex or two");
    let fl = || {
        prop_oneof![
            4 => (-3i32..=3).prop_map(|x| x as f64),
            1 => Just(-0.0),
            2 => (-1.0f64..1.0, -44i32..=37).prop_map(|(m, e)| m * 10f64.powi(e)),
            2 => -10.0f64..10.0,
            1 => prop::sample::select(vec![f32::MIN_POSITIVE as f64, f32::MAX as f64, f32::MIN as f64, 1e-45, 16777217.0, 0.1]),
        ]
        .prop_map(Fl)
    };
    let near = move || {
        // neighbours which only differ in the last digits
        (fl(), 0u8..4).prop_map(|(f, k)| if k == 0 { Fl(f.0 * (1.0 + f32::EPSILON as f64)) } else { f })
    };
    ctx.sub(
        "files",
        800_000,
        || {
            (
                ty3(),
                prop_oneof![60 => prop::collection::vec([near(), near(), near()], 1..=8), 1 => prop::collection::vec([near(), near(), near()], 1..=250)],
                prop_oneof![60 => prop::collection::vec(prop::collection::vec(any::<(u8, u8)>(), 0..=8), 0..=4), 1 => prop::collection::vec(prop::collection::vec(any::<(u8, u8)>(), 0..=100), 0..=30)],
                prop::collection::vec(prop::sample::select("abcXYZ019_-. #".chars().collect::<Vec<_>>()), 0..=12).prop_map(|c| c.into_iter().collect::<String>()),
                prop_oneof![3 => Just(0u16), 1 => 1u16..400],
                prop::bool::weighted(0.02),
            )
                .prop_map(|(ty, pool, lines, name, old, missing_dir)| Case { ty, pool, lines, name, old, missing_dir })
        },
        |c: &Case, rec: &mut Rec| on_ty3!(c.ty, run(c, rec)),
    );
    ctx.serial();
    ctx.sub(
        "disk_full",
        15_000,
        || {
            (
                ty3(),
                prop_oneof![5 => prop::collection::vec([near(), near(), near()], 1..=8), 1 => prop::collection::vec([near(), near(), near()], 1..=250)],
                prop_oneof![5 => prop::collection::vec(any::<(u8, u8)>(), 0..=8), 1 => prop::collection::vec(any::<(u8, u8)>(), 100..=600)],
                prop::sample::select(vec!["", "x", "a name"]).prop_map(String::from),
                prop_oneof![8 => any::<u16>(), 1 => Just(0), 1 => Just(u16::MAX)],
            )
                .prop_map(|(ty, pool, lines, name, room)| FullCase { ty, pool, lines, name, room })
        },
        |c: &FullCase, rec: &mut Rec| on_ty3!(c.ty, full(c, rec)),
    );
    let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("pbt-obj-{}", std::process::id())));
    ctx.finish()
}
