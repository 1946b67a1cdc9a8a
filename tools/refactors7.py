# Behaviour-preserving rewritings that exclude others of the sixth batch.
C = "crates/cglinalg_core/src/"
R = [
    ("index in two checked steps", C + "matrix.rs",
     "        let v: &mut [[S; R]; C] = self.as_mut();\n        &mut v[column][row]\n",
     "        assert!(column < C && row < R, \"out of range\");\n        // SAFETY: both were checked.\n        unsafe { &mut *self.as_mut_ptr().add(column * R + row) }\n"),
]
