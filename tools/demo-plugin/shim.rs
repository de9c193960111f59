//! swc_core, with a plugin interface whose metadata the caller makes up.
pub use real::{common, ecma};
pub mod plugin {
    pub use shim_macro::plugin_transform;
    pub mod metadata {
        pub enum TransformPluginMetadataContextKind {
            Filename = 1,
            Env = 2,
            Cwd = 3,
        }
    }
    pub mod proxies {
        use super::metadata::TransformPluginMetadataContextKind as Kind;
        use real::common::{comments::SingleThreadedComments, Mark, SourceMap};
        pub struct TransformPluginProgramMetadata {
            pub comments: Option<SingleThreadedComments>,
            pub source_map: SourceMap,
            pub unresolved_mark: Mark,
            pub filename: Option<String>,
            pub config: Option<String>,
        }
        impl TransformPluginProgramMetadata {
            pub fn get_transform_plugin_config(&self) -> Option<String> {
                self.config.clone()
            }
            pub fn get_context(&self, kind: &Kind) -> Option<String> {
                match kind {
                    Kind::Filename => self.filename.clone(),
                    _ => None,
                }
            }
        }
    }
}
