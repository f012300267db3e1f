#[derive(Clone, Debug)]
pub enum Order {
    Asc,
    Desc
}
