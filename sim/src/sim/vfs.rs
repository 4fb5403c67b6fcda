//! In-memory file system with identities, birth times, symlinks and open-file semantics.
use std::collections::BTreeMap;

pub const FD_BASE: i32 = 1_000_000;
pub type Ino = u64;

#[derive(Clone, Debug)]
pub enum Node {
    File(Vec<u8>),
    Dir(BTreeMap<String, Ino>),
    Link(String),
}
#[derive(Clone, Debug)]
pub struct Inode {
    pub node: Node,
    pub dev: u64,
    pub ino_shown: u64,
    pub btime: u64, // ns
    pub mtime: u64,
    pub readable: bool,
    pub nlink: u32,
}
#[derive(Clone, Debug)]
pub struct Fd {
    pub ino: Ino,
    pub pos: u64,
    pub write: bool,
    pub append: bool,
    pub dir_list: Vec<(String, Ino)>,
    pub dir_pos: usize,
}
pub struct Vfs {
    pub inodes: BTreeMap<Ino, Inode>,
    pub fds: BTreeMap<i32, Fd>,
    next_ino: Ino,
    next_fd: i32,
    pub root: Ino,
    pub has_btime: bool,
    pub clock: u64,
    /// Free bytes left on the simulated disk (None: unlimited).
    pub free: Option<u64>,
    /// Every successful byte range written by the code under test: (ino, len), for write-sequence checks.
    pub writes: u64,
    /// Files behave like pipes and terminals: no seeking, no truncation.
    pub unseekable: bool,
}

impl Vfs {
    pub fn new() -> Self {
        let mut v = Vfs {
            inodes: BTreeMap::new(),
            fds: BTreeMap::new(),
            next_ino: 100,
            next_fd: FD_BASE,
            root: 0,
            has_btime: true,
            clock: 1_700_000_000_000_000_000,
            free: None,
            writes: 0,
            unseekable: false,
        };
        v.root = v.alloc(Node::Dir(BTreeMap::new()));
        v.mkdirs("/sim");
        v
    }
    pub fn alloc(&mut self, node: Node) -> Ino {
        let i = self.next_ino;
        self.next_ino += 1;
        self.clock += 1_000_003;
        let t = self.clock;
        self.inodes.insert(i, Inode { node, dev: 66, ino_shown: i, btime: t, mtime: t, readable: true, nlink: 1 });
        i
    }
    fn split(path: &str) -> Vec<&str> {
        path.split('/').filter(|s| !s.is_empty() && *s != ".").collect()
    }
    /// Resolves to (parent inode, last name, inode if present). Errors are errno values.
    pub fn resolve(&self, path: &str, follow_last: bool) -> Result<(Ino, String, Option<Ino>), i32> {
        let mut depth = 0;
        self.resolve_from(self.root, path, follow_last, &mut depth)
    }
    fn resolve_from(&self, start: Ino, path: &str, follow_last: bool, depth: &mut u32) -> Result<(Ino, String, Option<Ino>), i32> {
        let mut stack: Vec<Ino> = vec![if path.starts_with('/') { self.root } else { start }];
        // full ancestor chain is needed for ".."; relative links start from the link's directory
        if !path.starts_with('/') && start != self.root {
            stack = self.chain(start);
        }
        let parts = Self::split(path);
        if parts.is_empty() {
            return Ok((*stack.last().unwrap(), String::new(), Some(*stack.last().unwrap())));
        }
        for (i, p) in parts.iter().enumerate() {
            let last = i + 1 == parts.len();
            let cur = *stack.last().unwrap();
            if *p == ".." {
                if stack.len() > 1 {
                    stack.pop();
                }
                if last {
                    let c = *stack.last().unwrap();
                    return Ok((c, String::new(), Some(c)));
                }
                continue;
            }
            let Node::Dir(m) = &self.inodes[&cur].node else { return Err(libc::ENOTDIR) };
            if p.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            let child = m.get(*p).copied();
            if last && !follow_last {
                return Ok((cur, p.to_string(), child));
            }
            let Some(c) = child else {
                if last {
                    return Ok((cur, p.to_string(), None));
                }
                return Err(libc::ENOENT);
            };
            if let Node::Link(target) = &self.inodes[&c].node {
                *depth += 1;
                if *depth > 40 {
                    return Err(libc::ELOOP);
                }
                let (pp, nn, ii) = self.resolve_from(cur, target, true, depth)?;
                let Some(r) = ii else {
                    if last {
                        return Ok((pp, nn, None));
                    }
                    return Err(libc::ENOENT);
                };
                if last {
                    return Ok((pp, nn, Some(r)));
                }
                stack = self.chain(r);
                continue;
            }
            if last {
                return Ok((cur, p.to_string(), Some(c)));
            }
            if !matches!(self.inodes[&c].node, Node::Dir(_)) {
                return Err(libc::ENOTDIR);
            }
            stack.push(c);
        }
        unreachable!()
    }
    fn chain(&self, ino: Ino) -> Vec<Ino> {
        // path from the root to a directory inode (small trees: search)
        fn dfs(v: &Vfs, cur: Ino, want: Ino, acc: &mut Vec<Ino>) -> bool {
            acc.push(cur);
            if cur == want {
                return true;
            }
            if let Node::Dir(m) = &v.inodes[&cur].node {
                for c in m.values() {
                    if matches!(v.inodes[c].node, Node::Dir(_)) && dfs(v, *c, want, acc) {
                        return true;
                    }
                }
            }
            acc.pop();
            false
        }
        let mut acc = Vec::new();
        if dfs(self, self.root, ino, &mut acc) {
            acc
        } else {
            vec![self.root, ino]
        }
    }
    pub fn lookup(&self, path: &str) -> Option<Ino> {
        self.resolve(path, true).ok().and_then(|r| r.2)
    }
    pub fn mkdirs(&mut self, path: &str) -> Ino {
        let mut cur = self.root;
        for p in Self::split(path) {
            let Node::Dir(m) = &self.inodes[&cur].node else { panic!("mkdirs through file") };
            cur = match m.get(p) {
                Some(c) => *c,
                None => {
                    let n = self.alloc(Node::Dir(BTreeMap::new()));
                    if let Node::Dir(m) = &mut self.inodes.get_mut(&cur).unwrap().node {
                        m.insert(p.to_string(), n);
                    }
                    n
                }
            };
        }
        cur
    }
    fn link(&mut self, path: &str, ino: Ino) {
        let (dir, name) = path.rsplit_once('/').expect("absolute path");
        let d = self.mkdirs(dir);
        if let Node::Dir(m) = &mut self.inodes.get_mut(&d).unwrap().node {
            m.insert(name.to_string(), ino);
        }
    }
    /// Atomically (re)places `path` by a fresh file (new inode), like rename(2) over it.
    pub fn put(&mut self, path: &str, data: &[u8]) -> Ino {
        let i = self.alloc(Node::File(data.to_vec()));
        self.link(path, i);
        i
    }
    /// As `put` but the new file shows the inode number of the old one (number reuse); birth time differs.
    pub fn put_reusing_ino(&mut self, path: &str, data: &[u8]) -> Ino {
        let old = self.lookup(path).map(|i| self.inodes[&i].ino_shown);
        let i = self.put(path, data);
        if let Some(o) = old {
            self.inodes.get_mut(&i).unwrap().ino_shown = o;
        }
        i
    }
    pub fn symlink(&mut self, path: &str, target: &str) {
        let i = self.alloc(Node::Link(target.to_string()));
        self.link(path, i);
    }
    pub fn remove(&mut self, path: &str) {
        if let Ok((d, name, Some(_))) = self.resolve(path, false) {
            if let Node::Dir(m) = &mut self.inodes.get_mut(&d).unwrap().node {
                m.remove(&name);
            }
        }
    }
    pub fn data(&self, path: &str) -> Option<&Vec<u8>> {
        let i = self.lookup(path)?;
        match &self.inodes[&i].node {
            Node::File(d) => Some(d),
            _ => None,
        }
    }
    pub fn data_mut(&mut self, ino: Ino) -> &mut Vec<u8> {
        self.clock += 1_000;
        let t = self.clock;
        let n = self.inodes.get_mut(&ino).unwrap();
        n.mtime = t;
        match &mut n.node {
            Node::File(d) => d,
            _ => panic!("not a file"),
        }
    }
    pub fn append(&mut self, path: &str, data: &[u8]) {
        let i = match self.lookup(path) {
            Some(i) => i,
            None => self.put(path, b""),
        };
        self.data_mut(i).extend_from_slice(data);
    }
    pub fn new_fd(&mut self, fd: Fd) -> i32 {
        let n = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(n, fd);
        n
    }
}
