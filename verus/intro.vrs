// ---------------------------------------------------------------- src/introspection.rs
//@type introspection.rs InterfaceDefinition
//@type introspection.rs ServiceDefinition
//@type introspection.rs UpdateDefinition
//@type introspection.rs StreamDefinition
/// The traits for formats: what a format tells of a type is up to the user.
pub trait Format: Sized {}
pub trait IntrospectableFormat: Format { type TypeInfo; }
pub trait FormatTypeInfo<T>: IntrospectableFormat {
	/// This is told of the type.
	spec fn is_type_info(info: Self::TypeInfo) -> bool;
	fn type_info() -> (r: Self::TypeInfo) ensures Self::is_type_info(r);
}
