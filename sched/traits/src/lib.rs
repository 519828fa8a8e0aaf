//! The compiler is the judge: with the thread-safe feature every public type is Send and Sync.
use cafebabe_ts::attributes::*;
use cafebabe_ts::bytecode::*;
use cafebabe_ts::constant_pool::*;
use cafebabe_ts::descriptors::*;
use cafebabe_ts::*;

fn shared<T: Send + Sync>() {}
fn error<T: std::error::Error + Send + Sync + 'static>() {}

pub fn all<'a>() {
    shared::<ClassFile<'a>>();
    shared::<Result<ClassFile<'a>, ParseError>>();
    shared::<FieldInfo<'a>>();
    shared::<MethodInfo<'a>>();
    shared::<AttributeInfo<'a>>();
    shared::<AttributeData<'a>>();
    shared::<CodeData<'a>>();
    shared::<ByteCode<'a>>();
    shared::<Opcode<'a>>();
    shared::<ConstantPoolItem<'a>>();
    shared::<ConstantPoolIter<'a>>();
    shared::<LiteralConstant<'a>>();
    shared::<BootstrapArgument<'a>>();
    shared::<FieldDescriptor<'a>>();
    shared::<MethodDescriptor<'a>>();
    shared::<ClassName<'a>>();
    shared::<ParseOptions>();
    shared::<ParseError>();
    error::<ParseError>();
}
