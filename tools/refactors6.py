# Behaviour-preserving rewritings, sixth batch: views, pointers, maps, casts, indices and exchanges of elements.
C = "crates/cglinalg_core/src/"
R = [
    ("pointer from the array", C + "vector.rs",
     "        self.data.as_ptr()\n",
     "        &self.data as *const [S; N] as *const S\n"),
    ("pointer from the value", C + "matrix.rs",
     "        self.data.as_mut_ptr() as *mut S\n",
     "        self as *mut Matrix<S, R, C> as *mut S\n"),
    ("fields without the pointer method", C + "coordinates.rs",
     "                unsafe { &*(self.as_ptr() as *const $Target<S>) }\n",
     "                let view: *const $Source<S> = self;\n                unsafe { &*view.cast::<$Target<S>>() }\n"),
    ("mutable fields without the pointer method", C + "coordinates.rs",
     "                unsafe { &mut *(self.as_mut_ptr() as *mut $Target<S>) }\n",
     "                unsafe { &mut *(self as *mut $Source<S>).cast::<$Target<S>>() }\n"),
    ("columns by transmute", C + "matrix.rs",
     "        unsafe { &*(self as *const Matrix<S, R, C> as *const [Vector<S, R>; C]) }\n",
     "        unsafe { core::mem::transmute::<&Matrix<S, R, C>, &[Vector<S, R>; C]>(self) }\n"),
    ("reference by cast", C + "vector.rs",
     "        unsafe { &*(data as *const [S; N] as *const Vector<S, N>) }\n",
     "        unsafe { &*core::ptr::from_ref(data).cast() }\n"),
    ("map by from_fn", C + "vector.rs",
     "        Vector { data: self.data.map(op) }\n",
     "        Vector { data: core::array::from_fn(|i| op(self.data[i])) }\n"),
    ("map of a matrix by from_fn", C + "matrix.rs",
     "            data: self.data.map(|column| column.map(&mut op)),\n",
     "            data: core::array::from_fn(|c| core::array::from_fn(|r| op(self.data[c][r]))),\n"),
    ("index by get", C + "matrix.rs",
     "        let v: &mut [[S; R]; C] = self.as_mut();\n        &mut v[column][row]\n",
     "        match self.data.get_mut(column).and_then(|entries| entries.get_mut(row)) {\n            Some(element) => element,\n            None => panic!(\"the element ({column}, {row}) is out of range\"),\n        }\n"),
    ("index of the storage", C + "matrix.rs",
     "        let v: &[[S; R]; C] = self.as_ref();\n        &v[column][row]\n",
     "        &self.data[column][row]\n"),
    ("row by map", C + "matrix.rs",
     "        let data: [S; C] = core::array::from_fn(|c| self.data[c][r]);\n",
     "        let data: [S; C] = self.data.map(|column| column[r]);\n"),
    ("rows through columns", C + "matrix.rs",
     "        let data: [[S; R]; C] = core::array::from_fn(|c| core::array::from_fn(|r| rows[r][c]));\n",
     "        let data: [[S; R]; C] = core::array::from_fn(|c| rows.map(|row| row[c]));\n"),
    ("columns by map", C + "matrix.rs",
     "    pub const fn from_columns(columns: &[Vector<S, R>; C]) -> Self {\n        let data_ptr = unsafe { &*(columns as *const [Vector<S, R>; C] as *const [[S; R]; C]) };\n\n        Self { data: *data_ptr }\n",
     "    pub fn from_columns(columns: &[Vector<S, R>; C]) -> Self {\n        Self { data: columns.map(|column| *AsRef::<[S; R]>::as_ref(&column)) }\n"),
    ("exchange by a pair", C + "matrix.rs",
     "        let element_a = self.data[a.0][a.1];\n        self.data[a.0][a.1] = self.data[b.0][b.1];\n        self.data[b.0][b.1] = element_a;\n",
     "        let (element_a, element_b) = (self[a], self[b]);\n        self[a] = element_b;\n        self[b] = element_a;\n"),
    ("exchange of columns by rows", C + "matrix.rs",
     "        self.data.swap(col_a, col_b);\n",
     "        for r in 0..R {\n            self.swap((col_a, r), (col_b, r));\n        }\n"),
    ("exchange of rows by temporaries", C + "matrix.rs",
     "            self.data[c].swap(row_a, row_b);\n",
     "            let upper = self.data[c][row_a];\n            self.data[c][row_a] = self.data[c][row_b];\n            self.data[c][row_b] = upper;\n"),
    ("cast with an early return", C + "vector.rs",
     "        let data: [Option<T>; N] = self.data.map(cglinalg_numeric::try_cast);\n        if data.iter().any(Option::is_none) {\n            return None;\n        }\n",
     "        let data: [Option<T>; N] = core::array::from_fn(|i| cglinalg_numeric::try_cast(self.data[i]));\n        for element in data.iter() {\n            element.as_ref()?;\n        }\n"),
    ("fields of a quaternion by its storage", C + "quaternion.rs",
     "        unsafe { &*(self.as_ptr() as *const ViewSV<S>) }\n",
     "        unsafe { &*(self as *const Quaternion<S> as *const ViewSV<S>) }\n"),
    ("direction by its field", C + "unit.rs",
     "        unsafe { &*(self as *const Unit<T> as *const T) }\n",
     "        &self.value\n"),
    ("complex map, one by one", C + "complex.rs",
     "        Complex::new(op(self.re), op(self.im))\n",
     "        let re = op(self.re);\n        let im = op(self.im);\n\n        Complex { re, im }\n"),
]
