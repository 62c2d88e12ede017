//! Projections of a descriptor onto the facts one property speaks about.
#[allow(unused_imports)]
use prost_types::{descriptor_proto, enum_descriptor_proto, uninterpreted_option, DescriptorProto, EnumDescriptorProto, EnumOptions, EnumValueDescriptorProto, EnumValueOptions, ExtensionRangeOptions, FieldDescriptorProto, FieldOptions, FileDescriptorProto, FileOptions, MessageOptions, MethodDescriptorProto, MethodOptions, OneofDescriptorProto, OneofOptions, ServiceDescriptorProto, ServiceOptions, UninterpretedOption};
use prost_types::field_descriptor_proto::{Label, Type};

pub type Facts = Vec<String>;

struct P<'a> { id: &'a str, out: Facts }
impl P<'_> {
    fn put(&mut self, ids: &[&str], path: &str, v: impl std::fmt::Debug) { if ids.contains(&self.id) { self.out.push(format!("{path} = {v:?}")) } }
    fn opts(&mut self, path: &str, o: &[UninterpretedOption]) {
        self.put(&["C17"], &format!("{path}.options.len"), o.len());
        for (i, o) in o.iter().enumerate() {
            let p = format!("{path}.option[{i}]");
            self.put(&["C17"], &p, o);
            if let Some(x) = o.positive_int_value { self.put(&["C03"], &p, x) }
            if let Some(x) = o.negative_int_value { self.put(&["C03"], &p, x) }
            if let Some(x) = &o.string_value { self.put(&["C07"], &p, x) }
            if let Some(x) = &o.aggregate_value { self.put(&["C21"], &p, x) }
        }
    }
    fn field(&mut self, p: &str, f: &FieldDescriptorProto) {
        self.put(&["C18"], &format!("{p}.name"), &f.name);
        self.put(&["C18"], &format!("{p}.type"), f.r#type);
        self.put(&["C18"], &format!("{p}.type_name"), &f.type_name);
        self.put(&["C18"], &format!("{p}.extendee"), &f.extendee);
        self.put(&["C04", "C03"], &format!("{p}.number"), f.number);
        self.put(&["C12"], &format!("{p}.label"), f.label);
        self.put(&["C13"], &format!("{p}.oneof_index"), f.oneof_index);
        self.put(&["C13"], &format!("{p}.proto3_optional"), f.proto3_optional);
        self.put(&["C06"], &format!("{p}.default"), &f.default_value);
        if f.r#type == Some(Type::String as i32) { self.put(&["C07"], &format!("{p}.default"), &f.default_value) }
        if f.r#type == Some(Type::Bytes as i32) { self.put(&["C08", "C07"], &format!("{p}.default"), &f.default_value) }
        self.put(&["C17", "C07"], &format!("{p}.json_name"), &f.json_name);
        if matches!(f.r#type, Some(t) if t == Type::Group as i32 || t == Type::Message as i32) {
            self.put(&["C14"], &format!("{p}"), (&f.name, f.label.filter(|l| *l == Label::Repeated as i32), f.r#type, &f.type_name))
        }
        self.opts(p, f.options.as_ref().map_or(&[], |o| &o.uninterpreted_option));
    }
    fn enum_(&mut self, p: &str, e: &EnumDescriptorProto) {
        self.put(&["C18"], &format!("{p}.name"), &e.name);
        self.opts(p, e.options.as_ref().map_or(&[], |o| &o.uninterpreted_option));
        for (i, v) in e.value.iter().enumerate() {
            self.put(&["C18"], &format!("{p}.value[{i}].name"), &v.name);
            self.put(&["C04", "C03"], &format!("{p}.value[{i}].number"), v.number);
            self.opts(&format!("{p}.value[{i}]"), v.options.as_ref().map_or(&[], |o| &o.uninterpreted_option));
        }
        self.put(&["C05"], &format!("{p}.reserved_range"), &e.reserved_range);
        self.put(&["C05", "C20"], &format!("{p}.reserved_name"), &e.reserved_name);
    }
    fn msg(&mut self, p: &str, m: &DescriptorProto) {
        self.put(&["C18"], &format!("{p}.name"), &m.name);
        for (i, f) in m.field.iter().enumerate() { self.field(&format!("{p}.field[{i}]"), f) }
        for (i, f) in m.extension.iter().enumerate() { self.field(&format!("{p}.ext[{i}]"), f) }
        for (i, f) in m.enum_type.iter().enumerate() { self.enum_(&format!("{p}.enum[{i}]"), f) }
        self.put(&["C14"], &format!("{p}.nested"), m.nested_type.iter().map(|n| n.name.clone()).collect::<Vec<_>>());
        for (i, f) in m.nested_type.iter().enumerate() {
            if f.options.as_ref().is_some_and(|o| o.map_entry == Some(true)) { self.put(&["C14"], &format!("{p}.nested[{i}]"), f) }
            self.msg(&format!("{p}.nested[{i}]"), f)
        }
        self.put(&["C13", "C18"], &format!("{p}.oneofs"), m.oneof_decl.iter().map(|o| o.name.clone()).collect::<Vec<_>>());
        for (i, o) in m.oneof_decl.iter().enumerate() { self.opts(&format!("{p}.oneof[{i}]"), o.options.as_ref().map_or(&[], |o| &o.uninterpreted_option)) }
        self.put(&["C05"], &format!("{p}.reserved_range"), &m.reserved_range);
        self.put(&["C05", "C20"], &format!("{p}.reserved_name"), &m.reserved_name);
        for (i, r) in m.extension_range.iter().enumerate() {
            self.put(&["C05"], &format!("{p}.ext_range[{i}]"), (r.start, r.end));
            self.opts(&format!("{p}.ext_range[{i}]"), r.options.as_ref().map_or(&[], |o| &o.uninterpreted_option));
        }
        self.put(&["C18"], &format!("{p}.counts"), (m.field.len(), m.extension.len(), m.enum_type.len(), m.nested_type.len(), m.extension_range.len()));
        self.put(&["C17"], &format!("{p}.map_entry"), m.options.as_ref().map(|o| (o.map_entry, o.deprecated, o.message_set_wire_format)));
        self.opts(p, m.options.as_ref().map_or(&[], |o| &o.uninterpreted_option));
    }
}

pub fn facts(id: &str, fd: &FileDescriptorProto) -> Facts {
    let mut x = P { id, out: vec![] };
    x.put(&["C19"], "package", &fd.package);
    x.put(&["C19"], "syntax", &fd.syntax);
    x.put(&["C18"], "name", &fd.name);
    x.put(&["C15"], "dependency", (&fd.dependency, &fd.public_dependency, &fd.weak_dependency));
    x.opts("file", fd.options.as_ref().map_or(&[], |o| &o.uninterpreted_option));
    x.put(&["C18"], "counts", (fd.message_type.len(), fd.enum_type.len(), fd.service.len(), fd.extension.len()));
    for (i, m) in fd.message_type.iter().enumerate() { x.msg(&format!("message[{i}]"), m) }
    for (i, m) in fd.enum_type.iter().enumerate() { x.enum_(&format!("enum[{i}]"), m) }
    for (i, m) in fd.extension.iter().enumerate() { x.field(&format!("extension[{i}]"), m) }
    for (i, s) in fd.service.iter().enumerate() {
        let p = format!("service[{i}]");
        x.put(&["C18"], &format!("{p}.name"), &s.name);
        x.opts(&p, s.options.as_ref().map_or(&[], |o| &o.uninterpreted_option));
        for (j, m) in s.method.iter().enumerate() {
            x.put(&["C18"], &format!("{p}.method[{j}]"), (&m.name, &m.input_type, &m.output_type, m.client_streaming, m.server_streaming));
            x.opts(&format!("{p}.method[{j}]"), m.options.as_ref().map_or(&[], |o| &o.uninterpreted_option));
        }
    }
    x.out
}
