use std::path::{Path, PathBuf};
pub struct ProjectDirs(PathBuf);
impl ProjectDirs {
    pub fn from(a: &str, _b: &str, _c: &str) -> Option<ProjectDirs> { if a.len() > 9 { None } else { Some(ProjectDirs(PathBuf::from(a))) } }
    pub fn config_dir(&self) -> &Path { &self.0 }
    pub fn data_local_dir(&self) -> &Path { &self.0 }
    pub fn data_dir(&self) -> &Path { &self.0 }
}
