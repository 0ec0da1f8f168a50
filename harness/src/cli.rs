//! Running the real binary, with and without injected faults.
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Out {
    pub code: i32, // -1 signal, -2 timeout
    pub out: String,
    pub err: String,
}
impl Out {
    pub fn ok(&self) -> bool {
        self.code == 0
    }
    pub fn panicked(&self) -> bool {
        self.code == 101 || self.err.contains("panicked at")
    }
}
pub fn run_cmd(mut c: Command, limit: Duration) -> Out {
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut ch = match c.spawn() {
        Ok(x) => x,
        Err(e) => return Out { code: -3, out: String::new(), err: format!("spawn: {e}") },
    };
    let so = ch.stdout.take().unwrap();
    let se = ch.stderr.take().unwrap();
    fn rd<R: std::io::Read + Send + 'static>(mut r: R) -> std::thread::JoinHandle<String> {
        std::thread::spawn(move || {
            let mut v = vec![];
            let _ = r.read_to_end(&mut v);
            String::from_utf8_lossy(&v).to_string()
        })
    }
    let (a, b) = (rd(so), rd(se));
    let t0 = Instant::now();
    let mut pause = 1;
    loop {
        match ch.try_wait() {
            Ok(Some(s)) => {
                return Out { code: s.code().unwrap_or(-1), out: a.join().unwrap(), err: b.join().unwrap() };
            }
            _ => {
                if t0.elapsed() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Out { code: -2, out: String::new(), err: "timeout".into() };
                }
                std::thread::sleep(Duration::from_millis(pause));
                pause = (pause + 1).min(10);
            }
        }
    }
}

#[derive(Clone)]
pub struct Cli {
    pub bin: String,
    pub cwd: PathBuf,
    pub conf: Option<PathBuf>,
}
impl Cli {
    pub fn new(bin: &str, cwd: &Path) -> Self {
        std::fs::create_dir_all(cwd).unwrap();
        Cli { bin: bin.into(), cwd: cwd.to_path_buf(), conf: None }
    }
    pub fn argv(&self, repo: &Path, args: &[&str]) -> Vec<String> {
        let mut v = vec![];
        if let Some(c) = &self.conf {
            v.push("--config".to_string());
            v.push(c.to_string_lossy().to_string());
        }
        v.push("-r".into());
        v.push(repo.to_string_lossy().to_string());
        v.extend(args.iter().map(|s| s.to_string()));
        v
    }
    pub fn run(&self, repo: &Path, args: &[&str]) -> Out {
        let mut c = Command::new(&self.bin);
        c.args(self.argv(repo, args)).current_dir(&self.cwd).env("RUST_BACKTRACE", "0");
        run_cmd(c, Duration::from_secs(60))
    }
    /// run under strace with one injected fault; `spec` like "rename:signal=SIGKILL:when=2"
    /// (`SPEC@PATH`: only calls that concern that file)
    pub fn run_injected(&self, repo: &Path, args: &[&str], spec: &str) -> Out {
        let mut c = Command::new("strace");
        let set = spec.split(':').next().unwrap();
        let (spec, path) = match spec.split_once('@') {
            Some((a, b)) => (a, Some(b)),
            None => (spec, None),
        };
        if let Some(p) = path {
            c.args(["-P", p]);
        }
        c.args(["-f", "-qq", "--seccomp-bpf", "-o", "/dev/null", "-e", &format!("trace={set}"), "-e", &format!("inject={spec}")]);
        c.arg(&self.bin).args(self.argv(repo, args)).current_dir(&self.cwd).env("RUST_BACKTRACE", "0");
        run_cmd(c, Duration::from_secs(60))
    }
    /// the ordered list of calls of the given kinds the command makes
    pub fn trace(&self, repo: &Path, args: &[&str], set: &str, logf: &Path) -> (Out, Vec<(String, String)>) {
        let mut c = Command::new("strace");
        c.args(["-f", "-qq", "--seccomp-bpf", "-s", "500", "-o", &logf.to_string_lossy(), "-e", &format!("trace={set}"), "-e", "signal=none"]);
        c.arg(&self.bin).args(self.argv(repo, args)).current_dir(&self.cwd).env("RUST_BACKTRACE", "0");
        let o = run_cmd(c, Duration::from_secs(60));
        let t = std::fs::read_to_string(logf).unwrap_or_default();
        let _ = std::fs::remove_file(logf);
        let v = t.lines().filter(|l| l.contains('(') || l.contains("resumed>")).map(|l| l.split_once(' ').map(|x| (x.0.to_string(), x.1.trim().to_string())).unwrap_or_default()).collect();
        (o, v)
    }
}
pub fn init_repo(cli: &Cli, repo: &Path, pack_size: &str, filter: Option<(&str, &str)>) -> Out {
    let o = cli.run(repo, &["init", "--pack-size", pack_size, "filesystem"]);
    if let Some((f, u)) = filter {
        let p = repo.join("config.toml");
        let s = std::fs::read_to_string(&p).unwrap();
        std::fs::write(&p, format!("filter = {f:?}\nunfilter = {u:?}\n{s}")).unwrap();
    }
    o
}
