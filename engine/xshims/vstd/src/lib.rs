//! `std` with an in-memory file system and a clock that stands still, for
//! running the repository's file code in the symbolic executor (and natively
//! in replays).
pub use ::std::*;

/// Hash tables as lists; the order of iteration is the harness' choice.
#[allow(static_mut_refs)]
pub mod collections {
    pub use ::std::collections::*;
    use ::std::borrow::Borrow;
    use ::std::hash::Hash;
    pub static mut REVERSE: bool = false;
    fn order<T>(mut v: Vec<T>) -> Vec<T> {
        if unsafe { REVERSE } { v.reverse(); }
        v
    }
    #[derive(Clone, Debug)]
    pub struct HashSet<T>(Vec<T>);
    impl<T> Default for HashSet<T> { fn default() -> Self { HashSet(vec![]) } }
    impl<T: Eq + Hash> HashSet<T> {
        pub fn new() -> Self { HashSet(vec![]) }
        pub fn with_capacity(_n: usize) -> Self { HashSet(vec![]) }
        pub fn len(&self) -> usize { self.0.len() }
        pub fn is_empty(&self) -> bool { self.0.is_empty() }
        pub fn clear(&mut self) { self.0.clear() }
        fn at<Q: ?Sized + Eq>(&self, x: &Q) -> Option<usize> where T: Borrow<Q> { self.0.iter().position(|y| y.borrow() == x) }
        pub fn contains<Q: ?Sized + Eq + Hash>(&self, x: &Q) -> bool where T: Borrow<Q> { self.at(x).is_some() }
        pub fn get<Q: ?Sized + Eq + Hash>(&self, x: &Q) -> Option<&T> where T: Borrow<Q> { self.at(x).map(|i| &self.0[i]) }
        pub fn insert(&mut self, x: T) -> bool {
            if self.at(&x).is_some() { return false; }
            self.0.push(x);
            true
        }
        pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, x: &Q) -> bool where T: Borrow<Q> {
            match self.at(x) { Some(i) => { self.0.remove(i); true } None => false }
        }
        pub fn iter(&self) -> vec::IntoIter<&T> { order(self.0.iter().collect::<Vec<_>>()).into_iter() }
        pub fn drain(&mut self) -> vec::IntoIter<T> { order(::std::mem::take(&mut self.0)).into_iter() }
        pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) { self.0.retain(f) }
    }
    use ::std::vec;
    impl<T: Eq + Hash> FromIterator<T> for HashSet<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { let mut s = HashSet::new(); s.extend(i); s } }
    impl<T: Eq + Hash> Extend<T> for HashSet<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) { for x in i { self.insert(x); } } }
    impl<'a, T: Eq + Hash + Copy + 'a> Extend<&'a T> for HashSet<T> { fn extend<I: IntoIterator<Item = &'a T>>(&mut self, i: I) { for x in i { self.insert(*x); } } }
    impl<T> IntoIterator for HashSet<T> { type Item = T; type IntoIter = vec::IntoIter<T>; fn into_iter(self) -> vec::IntoIter<T> { order(self.0).into_iter() } }
    impl<'a, T> IntoIterator for &'a HashSet<T> { type Item = &'a T; type IntoIter = vec::IntoIter<&'a T>; fn into_iter(self) -> vec::IntoIter<&'a T> { order(self.0.iter().collect::<Vec<_>>()).into_iter() } }
    impl<T: Eq + Hash> PartialEq for HashSet<T> { fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.0.iter().all(|x| o.contains(x)) } }
    impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T> { fn from(a: [T; N]) -> Self { a.into_iter().collect() } }

    #[derive(Clone, Debug)]
    pub struct HashMap<K, V>(Vec<(K, V)>);
    impl<K, V> Default for HashMap<K, V> { fn default() -> Self { HashMap(vec![]) } }
    impl<K: Eq + Hash, V> HashMap<K, V> {
        pub fn new() -> Self { HashMap(vec![]) }
        pub fn with_capacity(_n: usize) -> Self { HashMap(vec![]) }
        pub fn len(&self) -> usize { self.0.len() }
        pub fn is_empty(&self) -> bool { self.0.is_empty() }
        fn at<Q: ?Sized + Eq>(&self, x: &Q) -> Option<usize> where K: Borrow<Q> { self.0.iter().position(|y| y.0.borrow() == x) }
        pub fn contains_key<Q: ?Sized + Eq + Hash>(&self, x: &Q) -> bool where K: Borrow<Q> { self.at(x).is_some() }
        pub fn get<Q: ?Sized + Eq + Hash>(&self, x: &Q) -> Option<&V> where K: Borrow<Q> { self.at(x).map(|i| &self.0[i].1) }
        pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, x: &Q) -> Option<&mut V> where K: Borrow<Q> { match self.at(x) { Some(i) => Some(&mut self.0[i].1), None => None } }
        pub fn insert(&mut self, k: K, v: V) -> Option<V> {
            match self.at(&k) {
                Some(i) => Some(::std::mem::replace(&mut self.0[i].1, v)),
                None => { self.0.push((k, v)); None }
            }
        }
        pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, x: &Q) -> Option<V> where K: Borrow<Q> { self.at(x).map(|i| self.0.remove(i).1) }
        pub fn iter(&self) -> vec::IntoIter<(&K, &V)> { order(self.0.iter().map(|x| (&x.0, &x.1)).collect::<Vec<_>>()).into_iter() }
        pub fn keys(&self) -> vec::IntoIter<&K> { order(self.0.iter().map(|x| &x.0).collect::<Vec<_>>()).into_iter() }
        pub fn values(&self) -> vec::IntoIter<&V> { order(self.0.iter().map(|x| &x.1).collect::<Vec<_>>()).into_iter() }
        pub fn entry(&mut self, k: K) -> Entry<'_, K, V> { Entry(self, k) }
    }
    pub struct Entry<'a, K, V>(&'a mut HashMap<K, V>, K);
    impl<'a, K: Eq + Hash, V> Entry<'a, K, V> {
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
            let i = match self.0.at(&self.1) { Some(i) => i, None => { self.0 .0.push((self.1, f())); self.0 .0.len() - 1 } };
            &mut self.0 .0[i].1
        }
        pub fn or_insert(self, v: V) -> &'a mut V { self.or_insert_with(|| v) }
        pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
    }
    impl<K: Eq + Hash, V> FromIterator<(K, V)> for HashMap<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { let mut s = HashMap::new(); for (k, v) in i { s.insert(k, v); } s } }
    impl<K, V> IntoIterator for HashMap<K, V> { type Item = (K, V); type IntoIter = vec::IntoIter<(K, V)>; fn into_iter(self) -> vec::IntoIter<(K, V)> { order(self.0).into_iter() } }
    impl<'a, K: Eq + Hash, V> IntoIterator for &'a HashMap<K, V> { type Item = (&'a K, &'a V); type IntoIter = vec::IntoIter<(&'a K, &'a V)>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
    impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V> ::std::ops::Index<&Q> for HashMap<K, V> { type Output = V; fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") } }
}

pub mod time {
    pub use ::std::time::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Instant(());
    impl Instant {
        pub fn now() -> Self {
            Instant(())
        }
        pub fn elapsed(&self) -> Duration {
            Duration::from_secs(0)
        }
        pub fn duration_since(&self, _o: Instant) -> Duration {
            Duration::from_secs(0)
        }
    }
    impl ::std::ops::Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, _o: Instant) -> Duration {
            Duration::from_secs(0)
        }
    }
}

#[allow(static_mut_refs)]
pub mod fs {
    use ::std::io::{self, Read, Seek, SeekFrom, Write};
    use ::std::path::Path;
    pub struct Inode {
        pub path: Vec<u8>,
        pub exists: bool,
        pub arr: u64,
        pub len: usize,
        pub writes: usize,
    }
    pub static mut FILES: Vec<Inode> = Vec::new();
    /// the number of write calls on any file
    pub fn writes() -> usize {
        unsafe { FILES.iter().map(|f| f.writes).sum() }
    }
    pub fn find(p: &[u8]) -> usize {
        unsafe {
            for i in 0..FILES.len() {
                if FILES[i].path == p {
                    return i;
                }
            }
            FILES.push(Inode { path: p.to_vec(), exists: false, arr: 0, len: 0, writes: 0 });
            FILES.len() - 1
        }
    }
    pub fn ino(i: usize) -> &'static mut Inode {
        unsafe { &mut FILES[i] }
    }
    /// a file with arbitrary content
    pub fn arbitrary(p: &str, len: usize) -> usize {
        let i = find(p.as_bytes());
        let f = ino(i);
        f.exists = true;
        f.arr = ndlib::arr_new(1);
        f.len = len;
        i
    }
    /// a file with the given content
    pub fn given(p: &str, b: &[u8]) -> usize {
        let i = find(p.as_bytes());
        let f = ino(i);
        f.exists = true;
        f.arr = ndlib::arr_new(0);
        f.len = b.len();
        for k in 0..b.len() {
            ndlib::arr_set(f.arr, k as u64, b[k]);
        }
        i
    }
    pub fn byte(i: usize, at: usize) -> u8 {
        ndlib::arr_get(ino(i).arr, at as u64)
    }
    pub fn set_byte(i: usize, at: usize, v: u8) {
        ndlib::arr_set(ino(i).arr, at as u64, v)
    }
    fn of<P: AsRef<Path>>(p: &P) -> usize {
        find(p.as_ref().as_os_str().as_encoded_bytes())
    }

    #[derive(Debug)]
    pub struct File {
        ino: usize,
        pos: ::std::cell::Cell<usize>,
        r: bool,
        w: bool,
        append: bool,
    }
    unsafe impl Sync for File {}
    #[derive(Clone, Debug)]
    pub struct OpenOptions {
        r: bool,
        w: bool,
        append: bool,
        trunc: bool,
        create: bool,
        new: bool,
    }
    fn err(k: io::ErrorKind) -> io::Error {
        io::Error::from(k)
    }
    impl OpenOptions {
        pub fn new() -> Self {
            OpenOptions { r: false, w: false, append: false, trunc: false, create: false, new: false }
        }
        pub fn read(&mut self, v: bool) -> &mut Self {
            self.r = v;
            self
        }
        pub fn write(&mut self, v: bool) -> &mut Self {
            self.w = v;
            self
        }
        pub fn append(&mut self, v: bool) -> &mut Self {
            self.append = v;
            self
        }
        pub fn create(&mut self, v: bool) -> &mut Self {
            self.create = v;
            self
        }
        pub fn create_new(&mut self, v: bool) -> &mut Self {
            self.new = v;
            self
        }
        pub fn truncate(&mut self, v: bool) -> &mut Self {
            self.trunc = v;
            self
        }
        pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<File> {
            let k = of(&p);
            let f = ino(k);
            let w = self.w || self.append;
            if !self.r && !w {
                return Err(err(io::ErrorKind::InvalidInput));
            }
            if (self.trunc && (!self.w || self.append)) || ((self.create || self.new) && !w) {
                return Err(err(io::ErrorKind::InvalidInput));
            }
            if f.exists && self.new {
                return Err(err(io::ErrorKind::AlreadyExists));
            }
            if !f.exists {
                if !(self.create || self.new) {
                    return Err(err(io::ErrorKind::NotFound));
                }
                f.exists = true;
                f.arr = ndlib::arr_new(0);
                f.len = 0;
            } else if self.trunc && !self.new {
                f.writes += 1;
                f.arr = ndlib::arr_new(0);
                f.len = 0;
            }
            Ok(File { ino: k, pos: ::std::cell::Cell::new(0), r: self.r, w, append: self.append })
        }
    }
    #[derive(Clone, Debug)]
    pub struct Metadata(u64);
    impl Metadata {
        pub fn len(&self) -> u64 {
            self.0
        }
        pub fn is_file(&self) -> bool {
            true
        }
        pub fn is_dir(&self) -> bool {
            false
        }
    }
    fn resize(k: usize, n: usize) {
        let f = ino(k);
        f.writes += 1;
        // bytes past the end read as zero when the file grows again
        if n < f.len {
            let a = ndlib::arr_new(0);
            for i in 0..n {
                ndlib::arr_set(a, i as u64, ndlib::arr_get(f.arr, i as u64));
            }
            f.arr = a;
        } else {
            for i in f.len..n {
                ndlib::arr_set(f.arr, i as u64, 0);
            }
        }
        f.len = n;
    }
    impl File {
        pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> {
            OpenOptions::new().read(true).open(p)
        }
        pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> {
            OpenOptions::new().write(true).create(true).truncate(true).open(p)
        }
        pub fn options() -> OpenOptions {
            OpenOptions::new()
        }
        pub fn metadata(&self) -> io::Result<Metadata> {
            Ok(Metadata(ino(self.ino).len as u64))
        }
        pub fn set_len(&self, n: u64) -> io::Result<()> {
            if !self.w {
                return Err(err(io::ErrorKind::InvalidInput));
            }
            resize(self.ino, n as usize);
            Ok(())
        }
        pub fn try_clone(&self) -> io::Result<File> {
            Ok(File { ino: self.ino, pos: self.pos.clone(), r: self.r, w: self.w, append: self.append })
        }
        pub fn sync_all(&self) -> io::Result<()> {
            Ok(())
        }
        pub fn sync_data(&self) -> io::Result<()> {
            Ok(())
        }
        fn get(&self, pos: usize, buf: &mut [u8]) -> io::Result<usize> {
            if !self.r {
                return Err(err(io::ErrorKind::PermissionDenied));
            }
            let f = ino(self.ino);
            if pos >= f.len {
                return Ok(0);
            }
            let left = f.len - pos;
            let n = if buf.len() <= left { buf.len() } else { left };
            for i in 0..n {
                buf[i] = ndlib::arr_get(f.arr, (pos + i) as u64);
            }
            Ok(n)
        }
        fn put(&self, pos: usize, buf: &[u8]) -> io::Result<usize> {
            if !self.w {
                return Err(err(io::ErrorKind::PermissionDenied));
            }
            let f = ino(self.ino);
            f.writes += 1;
            if buf.len() > 0 {
                // a gap between the end of the file and the position reads as 0
                if f.len < pos {
                    resize(self.ino, pos);
                }
                let f = ino(self.ino);
                for i in 0..buf.len() {
                    ndlib::arr_set(f.arr, (pos + i) as u64, buf[i]);
                }
                if pos + buf.len() > f.len {
                    f.len = pos + buf.len();
                }
            }
            Ok(buf.len())
        }
        fn rd(&self, buf: &mut [u8]) -> io::Result<usize> {
            let n = self.get(self.pos.get(), buf)?;
            self.pos.set(self.pos.get() + n);
            Ok(n)
        }
        fn wr(&self, buf: &[u8]) -> io::Result<usize> {
            if self.append {
                self.pos.set(ino(self.ino).len);
            }
            let n = self.put(self.pos.get(), buf)?;
            self.pos.set(self.pos.get() + n);
            Ok(n)
        }
        fn sk(&self, p: SeekFrom) -> io::Result<u64> {
            let base: i64 = match p {
                SeekFrom::Start(x) => x as i64,
                SeekFrom::Current(d) => self.pos.get() as i64 + d,
                SeekFrom::End(d) => ino(self.ino).len as i64 + d,
            };
            if base < 0 {
                return Err(err(io::ErrorKind::InvalidInput));
            }
            self.pos.set(base as usize);
            Ok(base as u64)
        }
        pub fn read_at(&self, buf: &mut [u8], off: u64) -> io::Result<usize> {
            self.get(off as usize, buf)
        }
        pub fn read_exact_at(&self, buf: &mut [u8], off: u64) -> io::Result<()> {
            let n = self.get(off as usize, buf)?;
            if n < buf.len() { Err(err(io::ErrorKind::UnexpectedEof)) } else { Ok(()) }
        }
        pub fn write_at(&self, buf: &[u8], off: u64) -> io::Result<usize> {
            self.put(off as usize, buf)
        }
        pub fn write_all_at(&self, buf: &[u8], off: u64) -> io::Result<()> {
            self.put(off as usize, buf).map(|_| ())
        }
    }
    pub fn metadata<P: AsRef<Path>>(p: P) -> io::Result<Metadata> {
        let f = ino(of(&p));
        if f.exists { Ok(Metadata(f.len as u64)) } else { Err(err(io::ErrorKind::NotFound)) }
    }
    pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> {
        let mut v = vec![];
        File::open(p)?.read_to_end(&mut v)?;
        Ok(v)
    }
    pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> {
        File::create(p)?.write_all(c.as_ref())
    }
    pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(p: P, q: Q) -> io::Result<u64> {
        let v = read(p)?;
        write(q, &v)?;
        Ok(v.len() as u64)
    }
    pub fn remove_file<P: AsRef<Path>>(p: P) -> io::Result<()> {
        let f = ino(of(&p));
        if !f.exists {
            return Err(err(io::ErrorKind::NotFound));
        }
        f.exists = false;
        f.len = 0;
        f.writes += 1;
        Ok(())
    }
    pub fn create_dir_all<P: AsRef<Path>>(_p: P) -> io::Result<()> {
        Ok(())
    }
    macro_rules! io_impls { ($t:ty) => {
        impl Read for $t {
            fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
                self.rd(buf)
            }
            fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
                let n = self.rd(buf)?;
                if n < buf.len() { Err(err(io::ErrorKind::UnexpectedEof)) } else { Ok(()) }
            }
            fn read_to_end(&mut self, v: &mut Vec<u8>) -> io::Result<usize> {
                let len = ino(self.ino).len;
                let p = self.pos.get();
                let n = if len > p { len - p } else { 0 };
                let o = v.len();
                v.resize(o + n, 0);
                self.rd(&mut v[o..])
            }
        }
        impl Write for $t {
            fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
                self.wr(buf)
            }
            fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
                self.wr(buf).map(|_| ())
            }
            fn flush(&mut self) -> io::Result<()> {
                Ok(())
            }
        }
        impl Seek for $t {
            fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
                self.sk(p)
            }
        }
    } }
    io_impls!(File);
    io_impls!(&File);
}
