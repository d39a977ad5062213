use crate::Prop;
pub mod decode;
pub mod hostile;
pub mod history;
pub mod gtids;
pub mod stream;
pub mod commit;
pub mod resume;
pub mod session;
pub mod timeouts;
pub mod whole;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(decode::props());
    v.extend(hostile::props());
    v.extend(history::props());
    v.extend(gtids::props());
    v.extend(stream::props());
    v.extend(commit::props());
    v.extend(resume::props());
    v.extend(session::props());
    v.extend(timeouts::props());
    v.extend(whole::props());
    v
}
