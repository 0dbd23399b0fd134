//! Plain text form of scenarios (replay files).  f64 values are written so that they read back
//! bit for bit.

pub struct W(pub String);
pub struct R<'a>(std::str::SplitAsciiWhitespace<'a>);

impl W {
    pub fn tok(&mut self, s: &str) {
        if !self.0.is_empty() && !self.0.ends_with('\n') {
            self.0.push(' ');
        }
        self.0.push_str(s);
    }
    pub fn nl(&mut self) {
        self.0.push('\n');
    }
}
impl<'a> R<'a> {
    pub fn new(s: &'a str) -> R<'a> {
        R(s.split_ascii_whitespace())
    }
    pub fn tok(&mut self) -> Result<&'a str, String> {
        self.0.next().ok_or_else(|| "unexpected end of replay file".to_string())
    }
    pub fn expect(&mut self, s: &str) -> Result<(), String> {
        let t = self.tok()?;
        if t == s {
            Ok(())
        } else {
            Err(format!("expected {} found {}", s, t))
        }
    }
}

pub trait Codec: Sized {
    fn put(&self, w: &mut W);
    fn get(r: &mut R) -> Result<Self, String>;
}

macro_rules! prim {
    ($($t:ty),*) => { $(impl Codec for $t {
        fn put(&self, w: &mut W) { w.tok(&format!("{:?}", self)); }
        fn get(r: &mut R) -> Result<Self, String> {
            let t = r.tok()?;
            t.parse::<$t>().map_err(|e| format!("{}: {}", t, e))
        }
    })* };
}
prim!(f64, u64, usize, bool);

impl Codec for String {
    fn put(&self, w: &mut W) {
        w.tok(self)
    }
    fn get(r: &mut R) -> Result<Self, String> {
        Ok(r.tok()?.to_string())
    }
}
impl<T: Codec> Codec for Vec<T> {
    fn put(&self, w: &mut W) {
        w.tok(&format!("[{}", self.len()));
        for x in self {
            x.put(w);
        }
        w.tok("]");
        w.nl();
    }
    fn get(r: &mut R) -> Result<Self, String> {
        let t = r.tok()?;
        let n: usize = t
            .strip_prefix('[')
            .and_then(|x| x.parse().ok())
            .ok_or_else(|| format!("bad list {}", t))?;
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(T::get(r)?);
        }
        r.expect("]")?;
        Ok(v)
    }
}
impl<A: Codec, B: Codec, C: Codec, D: Codec> Codec for (A, B, C, D) {
    fn put(&self, w: &mut W) {
        self.0.put(w);
        self.1.put(w);
        self.2.put(w);
        self.3.put(w);
    }
    fn get(r: &mut R) -> Result<Self, String> {
        Ok((A::get(r)?, B::get(r)?, C::get(r)?, D::get(r)?))
    }
}

#[macro_export]
macro_rules! codec_struct {
    ($T:ident { $($f:ident),* }) => {
        impl $crate::codec::Codec for $T {
            fn put(&self, w: &mut $crate::codec::W) {
                $( w.tok(concat!(stringify!($f), ":")); self.$f.put(w); )*
                w.nl();
            }
            fn get(r: &mut $crate::codec::R) -> Result<Self, String> {
                $( r.expect(concat!(stringify!($f), ":"))?;
                   let $f = $crate::codec::Codec::get(r)?; )*
                Ok($T { $($f),* })
            }
        }
    };
}
#[macro_export]
macro_rules! codec_enum {
    ($T:ident { $($V:ident { $($f:ident),* }),* }) => {
        impl $crate::codec::Codec for $T {
            fn put(&self, w: &mut $crate::codec::W) {
                match self { $( $T::$V { $($f),* } => {
                    w.tok(stringify!($V));
                    $( $f.put(w); )*
                } )* }
            }
            fn get(r: &mut $crate::codec::R) -> Result<Self, String> {
                let t = r.tok()?;
                $( if t == stringify!($V) {
                    $( let $f = $crate::codec::Codec::get(r)?; )*
                    return Ok($T::$V { $($f),* });
                } )*
                Err(format!("unknown {} variant {}", stringify!($T), t))
            }
        }
    };
}
