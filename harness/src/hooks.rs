//! What the harness sees of the engine beyond its public interface. Most of it is optional: where the managers'
//! hooks can't be built (their guarded functions name private fields), the checks do without.
use hop_engine::{
    pubsub::PubSubManager,
    session::{SessionId, SessionManager},
};

/// The key, id and token of every stored session, if that can be seen.
pub fn sessions(m: &SessionManager) -> Option<Vec<(u32, u32, [u8; 32])>> {
    #[cfg(feature = "managers")]
    return Some(m.verif_sessions());
    #[cfg(not(feature = "managers"))]
    {
        let _ = m;
        None
    }
}

/// The sessions in a key's list, if that can be seen.
pub fn subscribers(ps: &PubSubManager, key: &[u8]) -> Option<Vec<SessionId>> {
    #[cfg(feature = "managers")]
    return Some(ps.verif_subscribers(key));
    #[cfg(not(feature = "managers"))]
    {
        let _ = (ps, key);
        None
    }
}

/// Goes near the end of the range of ids, if that can be done.
pub fn set_next_id(m: &SessionManager, id: u32) -> bool {
    #[cfg(feature = "managers")]
    {
        m.verif_set_next_id(id);
        true
    }
    #[cfg(not(feature = "managers"))]
    {
        let _ = (m, id);
        false
    }
}
