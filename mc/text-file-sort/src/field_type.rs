/// Field type
#[derive(Clone, Debug)]
pub enum FieldType {
    /// String
    String,
    /// Signed 64 bit integer
    Integer,
    /// 64 bit floating point number
    Number,
}
