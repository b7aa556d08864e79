//! Native stand-in for marine-rs-sdk: call parameters are injected by the
//! harness instead of being imported from the wasm host.
pub use marine_macro_stub::marine;
#[doc(hidden)]
pub use serde;
#[doc(hidden)]
pub use serde_json;

use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt;

#[derive(Clone, Debug, Default, Eq, PartialEq, Hash, Serialize, Deserialize)]
pub struct SecurityTetraplet {
    pub peer_pk: String,
    pub service_id: String,
    pub function_name: String,
    pub json_path: String,
}

impl SecurityTetraplet {
    pub fn new(
        peer_pk: impl Into<String>,
        service_id: impl Into<String>,
        function_name: impl Into<String>,
        json_path: impl Into<String>,
    ) -> Self {
        Self {
            peer_pk: peer_pk.into(),
            service_id: service_id.into(),
            function_name: function_name.into(),
            json_path: json_path.into(),
        }
    }

    pub fn literal_tetraplet(init_peer_id: impl Into<String>) -> Self {
        Self {
            peer_pk: init_peer_id.into(),
            ..Default::default()
        }
    }

    pub fn add_lambda(&mut self, json_path: &str) {
        self.json_path.push_str(json_path)
    }
}

impl fmt::Display for SecurityTetraplet {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(
            f,
            "peer_pk: {}, service_id: {}, function_name: {}, json_path: {}",
            self.peer_pk, self.service_id, self.function_name, self.json_path
        )
    }
}

#[derive(Clone, PartialEq, Default, Eq, Debug, Serialize, Deserialize)]
pub struct CallParameters {
    pub init_peer_id: String,
    pub service_id: String,
    pub service_creator_peer_id: String,
    pub host_id: String,
    pub particle_id: String,
    pub tetraplets: Vec<Vec<SecurityTetraplet>>,
}

thread_local!(static CP: RefCell<CallParameters> = RefCell::new(CallParameters::default()));

pub fn get_call_parameters() -> CallParameters {
    CP.with(|c| c.borrow().clone())
}

/// Harness side: parameters the next call on this thread will see.
pub fn inject_call_parameters(cp: CallParameters) {
    CP.with(|c| *c.borrow_mut() = cp)
}

#[macro_export]
macro_rules! module_manifest {
    ($($t:tt)*) => {};
}

#[derive(Default)]
pub struct WasmLoggerBuilder;
pub type TargetMap = std::collections::HashMap<&'static str, i32>;
impl WasmLoggerBuilder {
    pub fn new() -> Self {
        WasmLoggerBuilder
    }
    pub fn with_log_level(self, _level: log::LevelFilter) -> Self {
        self
    }
    pub fn with_target_map(self, _map: TargetMap) -> Self {
        self
    }
    pub fn filter(self, _m: impl Into<String>, _l: log::LevelFilter) -> Self {
        self
    }
    pub fn build(self) -> Result<(), log::SetLoggerError> {
        Ok(())
    }
}
