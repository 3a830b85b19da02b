// Types which applications bring along; the same text goes to the checker and
// to the generated modules' surroundings.

/// Prints otherwise than it is written, and takes lower case letters and dashes only.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Slug(String);
#[derive(Debug)]
pub struct BadSlug(usize);
impl std::str::FromStr for Slug {
    type Err = BadSlug;
    fn from_str(s: &str) -> Result<Slug, BadSlug> {
        match s.bytes().position(|b| !(b.is_ascii_lowercase() || b == b'-')) {
            Some(n) => Err(BadSlug(n)),
            None => Ok(Slug(s.to_string())),
        }
    }
}
impl std::fmt::Display for Slug {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

/// Takes several spellings.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Level {
    Low,
    High,
}
impl std::str::FromStr for Level {
    type Err = String;
    fn from_str(s: &str) -> Result<Level, String> {
        match s {
            "low" | "0" => Ok(Level::Low),
            "high" | "1" => Ok(Level::High),
            _ => Err(format!("no level: {}", s)),
        }
    }
}
impl std::fmt::Display for Level {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(if *self == Level::Low { "low" } else { "high" })
    }
}
