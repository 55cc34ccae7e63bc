// Declaration of serde::de::Error (serde_core defines it inside a macro).
pub trait Error: Sized {
    fn custom<T>(msg: T) -> Self;
    fn invalid_type(unexp: Unexpected, exp: &dyn Expected) -> Self { Error::custom(()) }
    fn invalid_value(unexp: Unexpected, exp: &dyn Expected) -> Self { Error::custom(()) }
    fn invalid_length(len: usize, exp: &dyn Expected) -> Self { Error::custom(()) }
    fn unknown_variant(variant: &str, expected: &'static [&'static str]) -> Self { Error::custom(()) }
    fn unknown_field(field: &str, expected: &'static [&'static str]) -> Self { Error::custom(()) }
    fn missing_field(field: &'static str) -> Self { Error::custom(()) }
    fn duplicate_field(field: &'static str) -> Self { Error::custom(()) }
}
