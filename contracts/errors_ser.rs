// Declaration of serde::ser::Error (serde_core defines it inside a macro).
pub trait Error: Sized {
    fn custom<T>(msg: T) -> Self;
}
