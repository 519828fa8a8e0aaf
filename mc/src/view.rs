//! Canonical dump of what the implementation reports, through its public API only.
use crate::dump::*;
use cafebabe::attributes::*;
use cafebabe::bytecode::*;
use cafebabe::constant_pool::*;
use cafebabe::descriptors::*;
use cafebabe::ClassFile;
use std::borrow::Cow;

fn nat(d: &mut D, n: &NameAndType) {
    d.cow(&n.name);
    d.cow(&n.descriptor);
}
fn member(d: &mut D, m: &MemberRef) {
    d.cow(&m.class_name);
    nat(d, &m.name_and_type);
}
fn handle(d: &mut D, h: &MethodHandle) {
    d.num(match h.kind {
        ReferenceKind::GetField => 1,
        ReferenceKind::GetStatic => 2,
        ReferenceKind::PutField => 3,
        ReferenceKind::PutStatic => 4,
        ReferenceKind::InvokeVirtual => 5,
        ReferenceKind::InvokeStatic => 6,
        ReferenceKind::InvokeSpecial => 7,
        ReferenceKind::NewInvokeSpecial => 8,
        ReferenceKind::InvokeInterface => 9,
    });
    d.num(match h.member_kind {
        MemberKind::Field => 0,
        MemberKind::Method => 1,
        MemberKind::InterfaceMethod => 2,
    });
    d.cow(&h.class_name);
    nat(d, &h.member_ref);
}
fn literal(d: &mut D, l: &LiteralConstant) {
    match l {
        LiteralConstant::Integer(v) => {
            d.tag("int");
            d.num(*v as i64);
        }
        LiteralConstant::Float(v) => {
            d.tag("float");
            d.bits(v.to_bits() as u64);
        }
        LiteralConstant::Long(v) => {
            d.tag("long");
            d.num(*v);
        }
        LiteralConstant::Double(v) => {
            d.tag("double");
            d.bits(v.to_bits());
        }
        LiteralConstant::String(s) => {
            d.tag("str");
            d.cow(s);
        }
        LiteralConstant::StringBytes(b) => {
            d.tag("str");
            d.raw_slice(b);
        }
    }
}
fn dynamic(d: &mut D, x: &Dynamic) {
    d.tag("dyn");
    d.num(x.attr_index as i64);
    nat(d, &x.name_and_type);
}
fn class(d: &mut D, c: &Cow<str>) {
    d.tag("class");
    d.cow(c);
}
fn mh(d: &mut D, h: &MethodHandle) {
    d.tag("mh");
    handle(d, h);
}
fn mt(d: &mut D, t: &Cow<str>) {
    d.tag("mt");
    d.cow(t);
}
fn loadable(d: &mut D, l: &Loadable) {
    match l {
        Loadable::LiteralConstant(c) => literal(d, c),
        Loadable::ClassInfo(c) => class(d, c),
        Loadable::MethodHandle(h) => mh(d, h),
        Loadable::MethodType(t) => mt(d, t),
        Loadable::Dynamic(x) => dynamic(d, x),
    }
}
fn bootstrap_arg(d: &mut D, a: &BootstrapArgument) {
    match a {
        BootstrapArgument::LiteralConstant(c) => literal(d, c),
        BootstrapArgument::ClassInfo(c) => class(d, c),
        BootstrapArgument::MethodHandle(h) => mh(d, h),
        BootstrapArgument::MethodType(t) => mt(d, t),
        BootstrapArgument::Dynamic(x) => dynamic(d, x),
    }
}
fn class_name(d: &mut D, c: &ClassName) {
    let c: Cow<str> = c.clone().into();
    d.cow(&c);
}
fn fd(d: &mut D, f: &FieldDescriptor) {
    let o = d.on;
    d.on = o || d.mask & DESC != 0;
    d.num(f.dimensions as i64);
    let (base, class) = match &f.field_type {
        FieldType::Byte => ('B', None),
        FieldType::Char => ('C', None),
        FieldType::Double => ('D', None),
        FieldType::Float => ('F', None),
        FieldType::Integer => ('I', None),
        FieldType::Long => ('J', None),
        FieldType::Short => ('S', None),
        FieldType::Boolean => ('Z', None),
        FieldType::Object(c) => ('L', Some(c)),
    };
    if d.on && !d.prov {
        d.out.push(base as u8);
        d.out.push(b' ');
    }
    if let Some(c) = class {
        class_name(d, c);
    }
    d.on = o;
    if d.mask & PRINT != 0 {
        let s = f.to_string();
        d.printed(&s);
    }
}
fn obj(d: &mut D, t: &ObjectArrayType) {
    match t {
        ObjectArrayType::ArrayType(f) => {
            d.tag("array");
            fd(d, f);
        }
        ObjectArrayType::BinaryName(n) => {
            d.tag("name");
            d.cow(n);
        }
    }
}
fn prim(t: PrimitiveArrayType) -> &'static str {
    match t {
        PrimitiveArrayType::Boolean => "boolean",
        PrimitiveArrayType::Char => "char",
        PrimitiveArrayType::Float => "float",
        PrimitiveArrayType::Double => "double",
        PrimitiveArrayType::Byte => "byte",
        PrimitiveArrayType::Short => "short",
        PrimitiveArrayType::Int => "int",
        PrimitiveArrayType::Long => "long",
    }
}

pub fn pool_item(d: &mut D, item: &ConstantPoolItem) {
    match item {
        ConstantPoolItem::LiteralConstant(c) => literal(d, c),
        ConstantPoolItem::ClassInfo(c) => class(d, c),
        ConstantPoolItem::FieldRef(m) => {
            d.tag("fref");
            member(d, m);
        }
        ConstantPoolItem::MethodRef(m) => {
            d.tag("mref");
            member(d, m);
        }
        ConstantPoolItem::InterfaceMethodRef(m) => {
            d.tag("imref");
            member(d, m);
        }
        ConstantPoolItem::NameAndType(n) => {
            d.tag("nat");
            nat(d, n);
        }
        ConstantPoolItem::MethodHandle(h) => mh(d, h),
        ConstantPoolItem::MethodType(t) => mt(d, t),
        ConstantPoolItem::Dynamic(x) => dynamic(d, x),
        ConstantPoolItem::InvokeDynamic(i) => {
            d.tag("indy");
            d.num(i.attr_index as i64);
            nat(d, &i.name_and_type);
        }
        ConstantPoolItem::ModuleInfo(m) => {
            d.tag("module");
            d.cow(m);
        }
        ConstantPoolItem::PackageInfo(m) => {
            d.tag("package");
            d.cow(m);
        }
    }
    d.nl();
}

pub fn class_file<'a>(c: &'a ClassFile<'a>, d: &mut D) {
    d.sec(HDR);
    d.tag("version");
    d.num(c.major_version as i64);
    d.num(c.minor_version as i64);
    d.num(c.access_flags.bits() as i64);
    class_name(d, &c.this_class);
    match &c.super_class {
        None => d.tag("none"),
        Some(s) => class_name(d, s),
    }
    d.num(c.interfaces.len() as i64);
    for i in &c.interfaces {
        class_name(d, i);
    }
    d.nl();
    d.sec(MEM);
    d.tag("fields");
    d.num(c.fields.len() as i64);
    d.nl();
    for f in &c.fields {
        d.sec(MEM);
        d.num(f.access_flags.bits() as i64);
        d.cow(&f.name);
        fd(d, &f.descriptor);
        d.nl();
        attributes(d, &f.attributes);
    }
    d.sec(MEM);
    d.tag("methods");
    d.num(c.methods.len() as i64);
    d.nl();
    for m in &c.methods {
        d.sec(MEM);
        d.num(m.access_flags.bits() as i64);
        d.cow(&m.name);
        let o = d.sec(MEM | DESC);
        d.num(m.descriptor.parameters.len() as i64);
        d.pop(o);
        for p in &m.descriptor.parameters {
            fd(d, p);
        }
        match &m.descriptor.return_type {
            ReturnDescriptor::Return(f) => fd(d, f),
            ReturnDescriptor::Void => {
                let o = d.sec(MEM | DESC);
                d.tag("void");
                d.pop(o);
            }
        }
        if d.mask & PRINT != 0 {
            let s = m.descriptor.to_string();
            d.printed(&s);
        }
        d.nl();
        attributes(d, &m.attributes);
    }
    attributes(d, &c.attributes);
    let o = d.sec(POOL);
    for item in c.constantpool_iter() {
        pool_item(d, &item);
    }
    d.pop(o);
}

fn attributes(d: &mut D, a: &[AttributeInfo]) {
    let o = d.sec(ATL);
    d.tag("attrs");
    d.num(a.len() as i64);
    d.nl();
    for x in a {
        d.sec(ATL);
        d.tag("attr");
        d.cow(&x.name);
        d.tag(kind(&x.data));
        attribute(d, &x.data);
        d.nl();
    }
    d.pop(o);
}

pub fn kind(a: &AttributeData) -> &'static str {
    match a {
        AttributeData::ConstantValue(..) => "ConstantValue",
        AttributeData::Code(..) => "Code",
        AttributeData::StackMapTable(..) => "StackMapTable",
        AttributeData::Exceptions(..) => "Exceptions",
        AttributeData::InnerClasses(..) => "InnerClasses",
        AttributeData::EnclosingMethod { .. } => "EnclosingMethod",
        AttributeData::Synthetic => "Synthetic",
        AttributeData::Signature(..) => "Signature",
        AttributeData::SourceFile(..) => "SourceFile",
        AttributeData::SourceDebugExtension(..) => "SourceDebugExtension",
        AttributeData::LineNumberTable(..) => "LineNumberTable",
        AttributeData::LocalVariableTable(..) => "LocalVariableTable",
        AttributeData::LocalVariableTypeTable(..) => "LocalVariableTypeTable",
        AttributeData::Deprecated => "Deprecated",
        AttributeData::RuntimeVisibleAnnotations(..) => "RuntimeVisibleAnnotations",
        AttributeData::RuntimeInvisibleAnnotations(..) => "RuntimeInvisibleAnnotations",
        AttributeData::RuntimeVisibleParameterAnnotations(..) => "RuntimeVisibleParameterAnnotations",
        AttributeData::RuntimeInvisibleParameterAnnotations(..) => "RuntimeInvisibleParameterAnnotations",
        AttributeData::RuntimeVisibleTypeAnnotations(..) => "RuntimeVisibleTypeAnnotations",
        AttributeData::RuntimeInvisibleTypeAnnotations(..) => "RuntimeInvisibleTypeAnnotations",
        AttributeData::AnnotationDefault(..) => "AnnotationDefault",
        AttributeData::BootstrapMethods(..) => "BootstrapMethods",
        AttributeData::MethodParameters(..) => "MethodParameters",
        AttributeData::Module(..) => "Module",
        AttributeData::ModulePackages(..) => "ModulePackages",
        AttributeData::ModuleMainClass(..) => "ModuleMainClass",
        AttributeData::NestHost(..) => "NestHost",
        AttributeData::NestMembers(..) => "NestMembers",
        AttributeData::PermittedSubclasses(..) => "PermittedSubclasses",
        AttributeData::Record(..) => "Record",
        AttributeData::Other(..) => "Other",
    }
}

fn opt(d: &mut D, c: &Option<Cow<str>>) {
    match c {
        None => d.tag("none"),
        Some(c) => d.cow(c),
    }
}
fn cows(d: &mut D, v: &[Cow<str>]) {
    d.num(v.len() as i64);
    for c in v {
        d.cow(c);
    }
}

fn attribute(d: &mut D, a: &AttributeData) {
    d.sec(META);
    match a {
        AttributeData::ConstantValue(c) => literal(d, c),
        AttributeData::Code(c) => code(d, c),
        AttributeData::StackMapTable(t) => {
            d.sec(CODE);
            d.num(t.len() as i64);
            for e in t {
                frame(d, e);
            }
        }
        AttributeData::Exceptions(v) | AttributeData::NestMembers(v) | AttributeData::PermittedSubclasses(v) => {
            cows(d, v)
        }
        AttributeData::InnerClasses(v) => {
            d.num(v.len() as i64);
            for e in v {
                d.cow(&e.inner_class_info);
                opt(d, &e.outer_class_info);
                opt(d, &e.inner_name);
                d.num(e.access_flags.bits() as i64);
            }
        }
        AttributeData::EnclosingMethod { class_name, method } => {
            d.cow(class_name);
            match method {
                None => d.tag("none"),
                Some(n) => nat(d, n),
            }
        }
        AttributeData::Synthetic | AttributeData::Deprecated => (),
        AttributeData::Signature(c) | AttributeData::SourceFile(c) | AttributeData::SourceDebugExtension(c) => d.cow(c),
        AttributeData::LineNumberTable(v) => {
            d.sec(CODE);
            d.num(v.len() as i64);
            for e in v {
                d.num(e.start_pc as i64);
                d.num(e.line_number as i64);
            }
        }
        AttributeData::LocalVariableTable(v) => {
            d.sec(CODE);
            d.num(v.len() as i64);
            for e in v {
                d.num(e.start_pc as i64);
                d.num(e.length as i64);
                d.cow(&e.name);
                fd(d, &e.descriptor);
                d.num(e.index as i64);
            }
        }
        AttributeData::LocalVariableTypeTable(v) => {
            d.sec(CODE);
            d.num(v.len() as i64);
            for e in v {
                d.num(e.start_pc as i64);
                d.num(e.length as i64);
                d.cow(&e.name);
                d.cow(&e.signature);
                d.num(e.index as i64);
            }
        }
        AttributeData::RuntimeVisibleAnnotations(v) | AttributeData::RuntimeInvisibleAnnotations(v) => {
            d.sec(ANN);
            annotations(d, v);
        }
        AttributeData::RuntimeVisibleParameterAnnotations(v)
        | AttributeData::RuntimeInvisibleParameterAnnotations(v) => {
            d.sec(ANN);
            d.num(v.len() as i64);
            for p in v {
                annotations(d, &p.annotations);
            }
        }
        AttributeData::RuntimeVisibleTypeAnnotations(v) | AttributeData::RuntimeInvisibleTypeAnnotations(v) => {
            d.sec(ANN);
            d.num(v.len() as i64);
            for t in v {
                type_annotation(d, t);
            }
        }
        AttributeData::AnnotationDefault(v) => {
            d.sec(ANN);
            element_value(d, v);
        }
        AttributeData::BootstrapMethods(v) => {
            d.num(v.len() as i64);
            for m in v {
                handle(d, &m.method);
                d.num(m.arguments.len() as i64);
                for a in &m.arguments {
                    bootstrap_arg(d, a);
                }
            }
        }
        AttributeData::MethodParameters(v) => {
            d.num(v.len() as i64);
            for p in v {
                opt(d, &p.name);
                d.num(p.access_flags.bits() as i64);
            }
        }
        AttributeData::Module(m) => {
            d.cow(&m.name);
            d.num(m.access_flags.bits() as i64);
            opt(d, &m.version);
            d.num(m.requires.len() as i64);
            for r in &m.requires {
                d.cow(&r.name);
                d.num(r.flags.bits() as i64);
                opt(d, &r.version);
            }
            d.num(m.exports.len() as i64);
            for e in &m.exports {
                d.cow(&e.package_name);
                d.num(e.flags.bits() as i64);
                cows(d, &e.exports_to);
            }
            d.num(m.opens.len() as i64);
            for e in &m.opens {
                d.cow(&e.package_name);
                d.num(e.flags.bits() as i64);
                cows(d, &e.opens_to);
            }
            cows(d, &m.uses);
            d.num(m.provides.len() as i64);
            for p in &m.provides {
                d.cow(&p.service_interface_name);
                cows(d, &p.provides_with);
            }
        }
        AttributeData::ModulePackages(v) => cows(d, v),
        AttributeData::ModuleMainClass(c) | AttributeData::NestHost(c) => d.cow(c),
        AttributeData::Record(v) => {
            d.num(v.len() as i64);
            for c in v {
                d.sec(META);
                d.cow(&c.name);
                fd(d, &c.descriptor);
                attributes(d, &c.attributes);
            }
        }
        AttributeData::Other(b) => d.raw_slice(b),
    }
}

fn vtype(d: &mut D, v: &VerificationType) {
    match v {
        VerificationType::Top => d.tag("top"),
        VerificationType::Integer => d.tag("int"),
        VerificationType::Float => d.tag("float"),
        VerificationType::Double => d.tag("double"),
        VerificationType::Long => d.tag("long"),
        VerificationType::Null => d.tag("null"),
        VerificationType::UninitializedThis => d.tag("uninitThis"),
        VerificationType::Object { class_name } => {
            d.tag("object");
            d.cow(class_name);
        }
        VerificationType::Uninitialized { code_offset } => {
            d.tag("uninit");
            d.num(*code_offset as i64);
        }
    }
}
fn vtypes(d: &mut D, v: &[VerificationType]) {
    d.num(v.len() as i64);
    for t in v {
        vtype(d, t);
    }
}
fn frame(d: &mut D, f: &StackMapEntry) {
    match f {
        StackMapEntry::Same { offset_delta } => {
            d.tag("same");
            d.num(*offset_delta as i64);
        }
        StackMapEntry::SameLocals1StackItem { offset_delta, stack } => {
            d.tag("same1");
            d.num(*offset_delta as i64);
            vtype(d, stack);
        }
        StackMapEntry::Chop {
            offset_delta,
            chop_count,
        } => {
            d.tag("chop");
            d.num(*offset_delta as i64);
            d.num(*chop_count as i64);
        }
        StackMapEntry::Append { offset_delta, locals } => {
            d.tag("append");
            d.num(*offset_delta as i64);
            vtypes(d, locals);
        }
        StackMapEntry::FullFrame {
            offset_delta,
            locals,
            stack,
        } => {
            d.tag("full");
            d.num(*offset_delta as i64);
            vtypes(d, locals);
            vtypes(d, stack);
        }
    }
}

fn annotations(d: &mut D, v: &[Annotation]) {
    d.num(v.len() as i64);
    for a in v {
        annotation(d, a);
    }
}
fn annotation(d: &mut D, a: &Annotation) {
    fd(d, &a.type_descriptor);
    d.num(a.elements.len() as i64);
    for e in &a.elements {
        d.cow(&e.name);
        element_value(d, &e.value);
    }
}
fn element_value(d: &mut D, v: &AnnotationElementValue) {
    use AnnotationElementValue::*;
    match v {
        ByteConstant(v) => {
            d.tag("B");
            d.num(*v as i64);
        }
        CharConstant(v) => {
            d.tag("C");
            d.num(*v as i64);
        }
        IntConstant(v) => {
            d.tag("I");
            d.num(*v as i64);
        }
        ShortConstant(v) => {
            d.tag("S");
            d.num(*v as i64);
        }
        BooleanConstant(v) => {
            d.tag("Z");
            d.num(*v as i64);
        }
        DoubleConstant(v) => {
            d.tag("D");
            d.bits(v.to_bits());
        }
        FloatConstant(v) => {
            d.tag("F");
            d.bits(v.to_bits() as u64);
        }
        LongConstant(v) => {
            d.tag("J");
            d.num(*v);
        }
        StringConstant(s) => {
            d.tag("s");
            d.cow(s);
        }
        EnumConstant { type_name, const_name } => {
            d.tag("e");
            fd(d, type_name);
            d.cow(const_name);
        }
        ClassLiteral { class_name } => {
            d.tag("c");
            d.cow(class_name);
        }
        AnnotationValue(a) => {
            d.tag("@");
            annotation(d, a);
        }
        ArrayValue(v) => {
            d.tag("[");
            d.num(v.len() as i64);
            for x in v {
                element_value(d, x);
            }
        }
    }
}
fn type_annotation(d: &mut D, t: &TypeAnnotation) {
    use TypeAnnotationTarget::*;
    match &t.target_type {
        TypeParameter { index } => {
            d.tag("typeparam");
            d.num(*index as i64);
        }
        Supertype { index } => {
            d.tag("supertype");
            d.num(*index as i64);
        }
        TypeParameterBound {
            type_parameter_index,
            bound_index,
        } => {
            d.tag("bound");
            d.num(*type_parameter_index as i64);
            d.num(*bound_index as i64);
        }
        Empty => d.tag("empty"),
        FormalParameter { index } => {
            d.tag("formal");
            d.num(*index as i64);
        }
        Throws { index } => {
            d.tag("throws");
            d.num(*index as i64);
        }
        LocalVar(v) => {
            d.tag("localvar");
            d.num(v.len() as i64);
            for e in v {
                d.num(e.start_pc as i64);
                d.num(e.length as i64);
                d.num(e.index as i64);
            }
        }
        Catch { exception_table_index } => {
            d.tag("catch");
            d.num(*exception_table_index as i64);
        }
        Offset { offset } => {
            d.tag("offset");
            d.num(*offset as i64);
        }
        TypeArgument {
            offset,
            type_argument_index,
        } => {
            d.tag("typearg");
            d.num(*offset as i64);
            d.num(*type_argument_index as i64);
        }
    }
    d.num(t.target_path.len() as i64);
    for p in &t.target_path {
        d.num(match p.path_kind {
            TypeAnnotationTargetPathKind::DeeperArray => 0,
            TypeAnnotationTargetPathKind::DeeperNested => 1,
            TypeAnnotationTargetPathKind::WildcardTypeArgument => 2,
            TypeAnnotationTargetPathKind::TypeArgument => 3,
        });
        d.num(p.argument_index as i64);
    }
    annotation(d, &t.annotation);
}

fn code(d: &mut D, c: &CodeData) {
    d.sec(CODE);
    d.num(c.max_stack as i64);
    d.num(c.max_locals as i64);
    d.raw_slice(c.code);
    d.num(c.exception_table.len() as i64);
    for e in &c.exception_table {
        d.num(e.start_pc as i64);
        d.num(e.end_pc as i64);
        d.num(e.handler_pc as i64);
        opt(d, &e.catch_type);
    }
    d.nl();
    if let Some(b) = &c.bytecode {
        let o = d.sec(OPS);
        for (at, op) in &b.opcodes {
            d.num(*at as i64);
            opcode(d, op);
            d.nl();
        }
        d.pop(o);
    }
    let o = d.sec(HASOPS);
    d.tag(if c.bytecode.is_some() { "decoded" } else { "notdecoded" });
    d.pop(o);
    d.nl();
    attributes(d, &c.attributes);
}

fn opcode(d: &mut D, op: &Opcode) {
    match op {
        Opcode::Aaload => d.tag("aaload"),
        Opcode::Aastore => d.tag("aastore"),
        Opcode::AconstNull => d.tag("aconst_null"),
        Opcode::Aload(x) => {
            d.tag("aload");
            d.num(*x as i64);
        }
        Opcode::Anewarray(t) => {
            d.tag("anewarray");
            obj(d, t);
        }
        Opcode::Areturn => d.tag("areturn"),
        Opcode::Arraylength => d.tag("arraylength"),
        Opcode::Astore(x) => {
            d.tag("astore");
            d.num(*x as i64);
        }
        Opcode::Athrow => d.tag("athrow"),
        Opcode::Baload => d.tag("baload"),
        Opcode::Bastore => d.tag("bastore"),
        Opcode::Bipush(x) => {
            d.tag("bipush");
            d.num(*x as i64);
        }
        Opcode::Breakpoint => d.tag("breakpoint"),
        Opcode::Caload => d.tag("caload"),
        Opcode::Castore => d.tag("castore"),
        Opcode::Checkcast(t) => {
            d.tag("checkcast");
            obj(d, t);
        }
        Opcode::D2f => d.tag("d2f"),
        Opcode::D2i => d.tag("d2i"),
        Opcode::D2l => d.tag("d2l"),
        Opcode::Dadd => d.tag("dadd"),
        Opcode::Daload => d.tag("daload"),
        Opcode::Dastore => d.tag("dastore"),
        Opcode::Dcmpg => d.tag("dcmpg"),
        Opcode::Dcmpl => d.tag("dcmpl"),
        Opcode::Dconst0 => d.tag("dconst_0"),
        Opcode::Dconst1 => d.tag("dconst_1"),
        Opcode::Ddiv => d.tag("ddiv"),
        Opcode::Dload(x) => {
            d.tag("dload");
            d.num(*x as i64);
        }
        Opcode::Dmul => d.tag("dmul"),
        Opcode::Dneg => d.tag("dneg"),
        Opcode::Drem => d.tag("drem"),
        Opcode::Dreturn => d.tag("dreturn"),
        Opcode::Dstore(x) => {
            d.tag("dstore");
            d.num(*x as i64);
        }
        Opcode::Dsub => d.tag("dsub"),
        Opcode::Dup => d.tag("dup"),
        Opcode::DupX1 => d.tag("dup_x1"),
        Opcode::DupX2 => d.tag("dup_x2"),
        Opcode::Dup2 => d.tag("dup2"),
        Opcode::Dup2X1 => d.tag("dup2_x1"),
        Opcode::Dup2X2 => d.tag("dup2_x2"),
        Opcode::F2d => d.tag("f2d"),
        Opcode::F2i => d.tag("f2i"),
        Opcode::F2l => d.tag("f2l"),
        Opcode::Fadd => d.tag("fadd"),
        Opcode::Faload => d.tag("faload"),
        Opcode::Fastore => d.tag("fastore"),
        Opcode::Fcmpg => d.tag("fcmpg"),
        Opcode::Fcmpl => d.tag("fcmpl"),
        Opcode::Fconst0 => d.tag("fconst_0"),
        Opcode::Fconst1 => d.tag("fconst_1"),
        Opcode::Fconst2 => d.tag("fconst_2"),
        Opcode::Fdiv => d.tag("fdiv"),
        Opcode::Fload(x) => {
            d.tag("fload");
            d.num(*x as i64);
        }
        Opcode::Fmul => d.tag("fmul"),
        Opcode::Fneg => d.tag("fneg"),
        Opcode::Frem => d.tag("frem"),
        Opcode::Freturn => d.tag("freturn"),
        Opcode::Fstore(x) => {
            d.tag("fstore");
            d.num(*x as i64);
        }
        Opcode::Fsub => d.tag("fsub"),
        Opcode::Getfield(m) => {
            d.tag("getfield");
            member(d, m);
        }
        Opcode::Getstatic(m) => {
            d.tag("getstatic");
            member(d, m);
        }
        Opcode::Goto(x) => {
            d.tag("goto");
            d.num(*x as i64);
        }
        Opcode::I2b => d.tag("i2b"),
        Opcode::I2c => d.tag("i2c"),
        Opcode::I2d => d.tag("i2d"),
        Opcode::I2f => d.tag("i2f"),
        Opcode::I2l => d.tag("i2l"),
        Opcode::I2s => d.tag("i2s"),
        Opcode::Iadd => d.tag("iadd"),
        Opcode::Iaload => d.tag("iaload"),
        Opcode::Iand => d.tag("iand"),
        Opcode::Iastore => d.tag("iastore"),
        Opcode::IconstM1 => d.tag("iconst_m1"),
        Opcode::Iconst0 => d.tag("iconst_0"),
        Opcode::Iconst1 => d.tag("iconst_1"),
        Opcode::Iconst2 => d.tag("iconst_2"),
        Opcode::Iconst3 => d.tag("iconst_3"),
        Opcode::Iconst4 => d.tag("iconst_4"),
        Opcode::Iconst5 => d.tag("iconst_5"),
        Opcode::Idiv => d.tag("idiv"),
        Opcode::IfAcmpeq(x) => {
            d.tag("if_acmpeq");
            d.num(*x as i64);
        }
        Opcode::IfAcmpne(x) => {
            d.tag("if_acmpne");
            d.num(*x as i64);
        }
        Opcode::IfIcmpeq(x) => {
            d.tag("if_icmpeq");
            d.num(*x as i64);
        }
        Opcode::IfIcmpge(x) => {
            d.tag("if_icmpge");
            d.num(*x as i64);
        }
        Opcode::IfIcmpgt(x) => {
            d.tag("if_icmpgt");
            d.num(*x as i64);
        }
        Opcode::IfIcmple(x) => {
            d.tag("if_icmple");
            d.num(*x as i64);
        }
        Opcode::IfIcmplt(x) => {
            d.tag("if_icmplt");
            d.num(*x as i64);
        }
        Opcode::IfIcmpne(x) => {
            d.tag("if_icmpne");
            d.num(*x as i64);
        }
        Opcode::Ifeq(x) => {
            d.tag("ifeq");
            d.num(*x as i64);
        }
        Opcode::Ifge(x) => {
            d.tag("ifge");
            d.num(*x as i64);
        }
        Opcode::Ifgt(x) => {
            d.tag("ifgt");
            d.num(*x as i64);
        }
        Opcode::Ifle(x) => {
            d.tag("ifle");
            d.num(*x as i64);
        }
        Opcode::Iflt(x) => {
            d.tag("iflt");
            d.num(*x as i64);
        }
        Opcode::Ifne(x) => {
            d.tag("ifne");
            d.num(*x as i64);
        }
        Opcode::Ifnonnull(x) => {
            d.tag("ifnonnull");
            d.num(*x as i64);
        }
        Opcode::Ifnull(x) => {
            d.tag("ifnull");
            d.num(*x as i64);
        }
        Opcode::Iinc(x, y) => {
            d.tag("iinc");
            d.num(*x as i64);
            d.num(*y as i64);
        }
        Opcode::Iload(x) => {
            d.tag("iload");
            d.num(*x as i64);
        }
        Opcode::Impdep1 => d.tag("impdep1"),
        Opcode::Impdep2 => d.tag("impdep2"),
        Opcode::Imul => d.tag("imul"),
        Opcode::Ineg => d.tag("ineg"),
        Opcode::Instanceof(t) => {
            d.tag("instanceof");
            obj(d, t);
        }
        Opcode::Invokedynamic(i) => {
            d.tag("invokedynamic");
            d.num(i.attr_index as i64);
            nat(d, &i.name_and_type);
        }
        Opcode::Invokeinterface(m, k) => {
            d.tag("invokeinterface");
            member(d, m);
            d.num(*k as i64);
        }
        Opcode::Invokespecial(m) => {
            d.tag("invokespecial");
            member(d, m);
        }
        Opcode::Invokestatic(m) => {
            d.tag("invokestatic");
            member(d, m);
        }
        Opcode::Invokevirtual(m) => {
            d.tag("invokevirtual");
            member(d, m);
        }
        Opcode::Ior => d.tag("ior"),
        Opcode::Irem => d.tag("irem"),
        Opcode::Ireturn => d.tag("ireturn"),
        Opcode::Ishl => d.tag("ishl"),
        Opcode::Ishr => d.tag("ishr"),
        Opcode::Istore(x) => {
            d.tag("istore");
            d.num(*x as i64);
        }
        Opcode::Isub => d.tag("isub"),
        Opcode::Iushr => d.tag("iushr"),
        Opcode::Ixor => d.tag("ixor"),
        Opcode::Jsr(x) => {
            d.tag("jsr");
            d.num(*x as i64);
        }
        Opcode::L2d => d.tag("l2d"),
        Opcode::L2f => d.tag("l2f"),
        Opcode::L2i => d.tag("l2i"),
        Opcode::Ladd => d.tag("ladd"),
        Opcode::Laload => d.tag("laload"),
        Opcode::Land => d.tag("land"),
        Opcode::Lastore => d.tag("lastore"),
        Opcode::Lcmp => d.tag("lcmp"),
        Opcode::Lconst0 => d.tag("lconst_0"),
        Opcode::Lconst1 => d.tag("lconst_1"),
        Opcode::Ldc(l) => {
            d.tag("ldc");
            loadable(d, l);
        }
        Opcode::LdcW(l) => {
            d.tag("ldc_w");
            loadable(d, l);
        }
        Opcode::Ldc2W(l) => {
            d.tag("ldc2_w");
            loadable(d, l);
        }
        Opcode::Ldiv => d.tag("ldiv"),
        Opcode::Lload(x) => {
            d.tag("lload");
            d.num(*x as i64);
        }
        Opcode::Lmul => d.tag("lmul"),
        Opcode::Lneg => d.tag("lneg"),
        Opcode::Lookupswitch(t) => {
            d.tag("lookupswitch");
            d.num(t.default as i64);
            for (k, j) in &t.match_offsets {
                d.num(*k as i64);
                d.num(*j as i64);
            }
        }
        Opcode::Lor => d.tag("lor"),
        Opcode::Lrem => d.tag("lrem"),
        Opcode::Lreturn => d.tag("lreturn"),
        Opcode::Lshl => d.tag("lshl"),
        Opcode::Lshr => d.tag("lshr"),
        Opcode::Lstore(x) => {
            d.tag("lstore");
            d.num(*x as i64);
        }
        Opcode::Lsub => d.tag("lsub"),
        Opcode::Lushr => d.tag("lushr"),
        Opcode::Lxor => d.tag("lxor"),
        Opcode::Monitorenter => d.tag("monitorenter"),
        Opcode::Monitorexit => d.tag("monitorexit"),
        Opcode::Multianewarray(t, k) => {
            d.tag("multianewarray");
            obj(d, t);
            d.num(*k as i64);
        }
        Opcode::New(c) => {
            d.tag("new");
            d.cow(c);
        }
        Opcode::Newarray(t) => {
            d.tag("newarray");
            d.tag(prim(*t));
        }
        Opcode::Nop => d.tag("nop"),
        Opcode::Pop => d.tag("pop"),
        Opcode::Pop2 => d.tag("pop2"),
        Opcode::Putfield(m) => {
            d.tag("putfield");
            member(d, m);
        }
        Opcode::Putstatic(m) => {
            d.tag("putstatic");
            member(d, m);
        }
        Opcode::Ret(x) => {
            d.tag("ret");
            d.num(*x as i64);
        }
        Opcode::Return => d.tag("return"),
        Opcode::Saload => d.tag("saload"),
        Opcode::Sastore => d.tag("sastore"),
        Opcode::Sipush(x) => {
            d.tag("sipush");
            d.num(*x as i64);
        }
        Opcode::Swap => d.tag("swap"),
        Opcode::Tableswitch(t) => {
            d.tag("tableswitch");
            d.num(t.default as i64);
            d.num(t.low as i64);
            d.num(t.high as i64);
            for j in &t.jumps {
                d.num(*j as i64);
            }
        }
    }
}

/// Every Code attribute of the class, at any depth.
pub fn each_code<'b, 'a>(c: &'b ClassFile<'a>, f: &mut dyn FnMut(&'b CodeData<'a>)) {
    for m in &c.fields {
        codes_in(&m.attributes, f);
    }
    for m in &c.methods {
        codes_in(&m.attributes, f);
    }
    codes_in(&c.attributes, f);
}
fn codes_in<'b, 'a>(a: &'b [AttributeInfo<'a>], f: &mut dyn FnMut(&'b CodeData<'a>)) {
    for x in a {
        match &x.data {
            AttributeData::Code(c) => {
                f(c);
                codes_in(&c.attributes, f);
            }
            AttributeData::Record(r) => {
                for c in r {
                    codes_in(&c.attributes, f);
                }
            }
            _ => (),
        }
    }
}
