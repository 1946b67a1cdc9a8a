property = 'P39'
needs = 'Euler angles read from memory, where yaw and pitch differ'
breaks = 'the yaw and pitch angles are exchanged in memory'
crate = 'transform'
edits = [('crates/cglinalg_core/src/euler.rs', 'pub struct Euler<A> {\n    /// The rotation angle about the **x-axis** in the **yz-plane**. This is also\n    /// known as the **roll** angle.\n    pub x: A,\n    /// The rotation angle about the **y-axis** in the **zx-plane**. This is also\n    /// known as the **yaw** angle.\n    pub y: A,\n    /// The rotation angle about the **z-axis** in the **xy-plane**. This is also\n    /// called the **pitch** angle.\n    pub z: A,\n', 'pub struct Euler<A> {\n    /// The rotation angle about the **x-axis** in the **yz-plane**. This is also\n    /// known as the **roll** angle.\n    pub x: A,\n    /// The rotation angle about the **z-axis** in the **xy-plane**. This is also\n    /// called the **pitch** angle.\n    pub z: A,\n    /// The rotation angle about the **y-axis** in the **zx-plane**. This is also\n    /// known as the **yaw** angle.\n    pub y: A,\n')]
demo = 'use cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    let e = Euler::new(1.0_f64, 2.0, 3.0);\n    let a: [f64; 3] = unsafe { core::mem::transmute(e) };\n    assert_eq!(a, [1.0, 2.0, 3.0]);\n}\n'
