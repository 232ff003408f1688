//! What a builder's final settings mean.
use super::grammar::{self as g, Auth, Kind, Parts};
use super::normalize::{self, Mode};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum User {
    Direct(String),
    Pair(String, Option<String>),
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct ASet {
    pub user: Option<User>,
    /// Text of the host; an IP address in its usual notation.
    pub host: String,
    pub port: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Settings {
    pub scheme: Option<String>,
    pub auth: Option<ASet>,
    pub path: String,
    pub query: Option<String>,
    pub fragment: Option<String>,
    pub normalize: bool,
}

impl Settings {
    pub fn load(s: &str) -> Settings {
        let p = g::split(s);
        Settings {
            scheme: p.scheme,
            auth: p.authority.map(|a| {
                let a = g::split_auth(&a);
                ASet { user: a.userinfo.map(User::Direct), host: a.host, port: a.port }
            }),
            path: p.path,
            query: p.query,
            fragment: p.fragment,
            normalize: false,
        }
    }

    /// The components, if each of them is acceptable on its own.
    fn parts(&self, iri: bool) -> Option<Parts> {
        let authority = match &self.auth {
            None => None,
            Some(a) => {
                let userinfo = match &a.user {
                    None => None,
                    Some(User::Direct(u)) => Some(u.clone()),
                    Some(User::Pair(u, p)) => {
                        if u.contains(':') {
                            return None;
                        }
                        Some(match p {
                            None => u.clone(),
                            Some(p) => format!("{u}:{p}"),
                        })
                    }
                };
                if !userinfo.as_deref().map_or(true, |u| g::userinfo_ok(iri, u))
                    || !g::host_ok(iri, &a.host)
                    || !a.port.as_deref().map_or(true, g::port_ok)
                {
                    return None;
                }
                Some(g::compose_auth(&Auth { userinfo, host: a.host.clone(), port: a.port.clone() }))
            }
        };
        let p = Parts {
            scheme: self.scheme.clone(),
            authority,
            path: self.path.clone(),
            query: self.query.clone(),
            fragment: self.fragment.clone(),
        };
        let ok = p.scheme.as_deref().map_or(true, g::scheme_ok)
            && g::path_chars_ok(iri, &p.path)
            && p.query.as_deref().map_or(true, |q| g::query_ok(iri, q))
            && p.fragment.as_deref().map_or(true, |q| g::fragment_ok(iri, q));
        ok.then_some(p)
    }

    /// The components of the identifier these settings stand for, if there is one.
    pub fn build(&self, iri: bool, kind: Kind) -> Option<Parts> {
        let p = self.parts(iri)?;
        if !self.normalize {
            return g::parts_ok(iri, kind, &p).then_some(p);
        }
        // An authority must be followed by an absolute path, a relative reference must not
        // look as if it had a scheme; two leading slashes can be escaped.
        let mut raw = p.clone();
        if raw.authority.is_none() && raw.path.starts_with("//") {
            raw.path = format!("/.{}", raw.path);
        }
        if !g::parts_ok(iri, kind, &raw) {
            return None;
        }
        let t = if p.scheme.is_none() && p.authority.is_none() && !p.path.starts_with('/') {
            // Dot segments of a path relative to an unknown base must stay.
            Parts { path: normalize::pct(iri, &p.path), ..normalize::normalize(iri, Mode::Default, &p).0 }
        } else {
            normalize::normalize(iri, Mode::Default, &p).0
        };
        g::parts_ok(iri, kind, &t).then_some(t)
    }
}
