//! Generated by tools/swizzles.py: every swizzle method, with the components its name lists.
pub fn vector1<S: Copy + PartialEq + std::fmt::Debug>(v: &crate::Vector1<S>, a: [S; 1]) -> Result<(), String> {
    crate::sw!(v.x(), [a[0]], "x");
    Ok(())
}
pub fn vector2<S: Copy + PartialEq + std::fmt::Debug>(v: &crate::Vector2<S>, a: [S; 2]) -> Result<(), String> {
    crate::sw!(v.x(), [a[0]], "x");
    crate::sw!(v.y(), [a[1]], "y");
    crate::sw!(v.xx(), [a[0], a[0]], "xx");
    crate::sw!(v.xy(), [a[0], a[1]], "xy");
    crate::sw!(v.yx(), [a[1], a[0]], "yx");
    crate::sw!(v.yy(), [a[1], a[1]], "yy");
    Ok(())
}
pub fn vector3<S: Copy + PartialEq + std::fmt::Debug>(v: &crate::Vector3<S>, a: [S; 3]) -> Result<(), String> {
    crate::sw!(v.x(), [a[0]], "x");
    crate::sw!(v.y(), [a[1]], "y");
    crate::sw!(v.z(), [a[2]], "z");
    crate::sw!(v.xx(), [a[0], a[0]], "xx");
    crate::sw!(v.xy(), [a[0], a[1]], "xy");
    crate::sw!(v.xz(), [a[0], a[2]], "xz");
    crate::sw!(v.yx(), [a[1], a[0]], "yx");
    crate::sw!(v.yy(), [a[1], a[1]], "yy");
    crate::sw!(v.yz(), [a[1], a[2]], "yz");
    crate::sw!(v.zx(), [a[2], a[0]], "zx");
    crate::sw!(v.zy(), [a[2], a[1]], "zy");
    crate::sw!(v.zz(), [a[2], a[2]], "zz");
    crate::sw!(v.xxx(), [a[0], a[0], a[0]], "xxx");
    crate::sw!(v.xxy(), [a[0], a[0], a[1]], "xxy");
    crate::sw!(v.xxz(), [a[0], a[0], a[2]], "xxz");
    crate::sw!(v.xyx(), [a[0], a[1], a[0]], "xyx");
    crate::sw!(v.xyy(), [a[0], a[1], a[1]], "xyy");
    crate::sw!(v.xyz(), [a[0], a[1], a[2]], "xyz");
    crate::sw!(v.xzx(), [a[0], a[2], a[0]], "xzx");
    crate::sw!(v.xzy(), [a[0], a[2], a[1]], "xzy");
    crate::sw!(v.xzz(), [a[0], a[2], a[2]], "xzz");
    crate::sw!(v.yxx(), [a[1], a[0], a[0]], "yxx");
    crate::sw!(v.yxy(), [a[1], a[0], a[1]], "yxy");
    crate::sw!(v.yxz(), [a[1], a[0], a[2]], "yxz");
    crate::sw!(v.yyx(), [a[1], a[1], a[0]], "yyx");
    crate::sw!(v.yyy(), [a[1], a[1], a[1]], "yyy");
    crate::sw!(v.yyz(), [a[1], a[1], a[2]], "yyz");
    crate::sw!(v.yzx(), [a[1], a[2], a[0]], "yzx");
    crate::sw!(v.yzy(), [a[1], a[2], a[1]], "yzy");
    crate::sw!(v.yzz(), [a[1], a[2], a[2]], "yzz");
    crate::sw!(v.zxx(), [a[2], a[0], a[0]], "zxx");
    crate::sw!(v.zxy(), [a[2], a[0], a[1]], "zxy");
    crate::sw!(v.zxz(), [a[2], a[0], a[2]], "zxz");
    crate::sw!(v.zyx(), [a[2], a[1], a[0]], "zyx");
    crate::sw!(v.zyy(), [a[2], a[1], a[1]], "zyy");
    crate::sw!(v.zyz(), [a[2], a[1], a[2]], "zyz");
    crate::sw!(v.zzx(), [a[2], a[2], a[0]], "zzx");
    crate::sw!(v.zzy(), [a[2], a[2], a[1]], "zzy");
    crate::sw!(v.zzz(), [a[2], a[2], a[2]], "zzz");
    Ok(())
}
pub fn vector4<S: Copy + PartialEq + std::fmt::Debug>(v: &crate::Vector4<S>, a: [S; 4]) -> Result<(), String> {
    crate::sw!(v.x(), [a[0]], "x");
    crate::sw!(v.y(), [a[1]], "y");
    crate::sw!(v.z(), [a[2]], "z");
    crate::sw!(v.w(), [a[3]], "w");
    crate::sw!(v.xx(), [a[0], a[0]], "xx");
    crate::sw!(v.xy(), [a[0], a[1]], "xy");
    crate::sw!(v.xz(), [a[0], a[2]], "xz");
    crate::sw!(v.xw(), [a[0], a[3]], "xw");
    crate::sw!(v.yx(), [a[1], a[0]], "yx");
    crate::sw!(v.yy(), [a[1], a[1]], "yy");
    crate::sw!(v.yz(), [a[1], a[2]], "yz");
    crate::sw!(v.yw(), [a[1], a[3]], "yw");
    crate::sw!(v.zx(), [a[2], a[0]], "zx");
    crate::sw!(v.zy(), [a[2], a[1]], "zy");
    crate::sw!(v.zz(), [a[2], a[2]], "zz");
    crate::sw!(v.zw(), [a[2], a[3]], "zw");
    crate::sw!(v.wx(), [a[3], a[0]], "wx");
    crate::sw!(v.wy(), [a[3], a[1]], "wy");
    crate::sw!(v.wz(), [a[3], a[2]], "wz");
    crate::sw!(v.ww(), [a[3], a[3]], "ww");
    crate::sw!(v.xxx(), [a[0], a[0], a[0]], "xxx");
    crate::sw!(v.xxy(), [a[0], a[0], a[1]], "xxy");
    crate::sw!(v.xxz(), [a[0], a[0], a[2]], "xxz");
    crate::sw!(v.xxw(), [a[0], a[0], a[3]], "xxw");
    crate::sw!(v.xyx(), [a[0], a[1], a[0]], "xyx");
    crate::sw!(v.xyy(), [a[0], a[1], a[1]], "xyy");
    crate::sw!(v.xyz(), [a[0], a[1], a[2]], "xyz");
    crate::sw!(v.xyw(), [a[0], a[1], a[3]], "xyw");
    crate::sw!(v.xzx(), [a[0], a[2], a[0]], "xzx");
    crate::sw!(v.xzy(), [a[0], a[2], a[1]], "xzy");
    crate::sw!(v.xzz(), [a[0], a[2], a[2]], "xzz");
    crate::sw!(v.xzw(), [a[0], a[2], a[3]], "xzw");
    crate::sw!(v.xwx(), [a[0], a[3], a[0]], "xwx");
    crate::sw!(v.xwy(), [a[0], a[3], a[1]], "xwy");
    crate::sw!(v.xwz(), [a[0], a[3], a[2]], "xwz");
    crate::sw!(v.xww(), [a[0], a[3], a[3]], "xww");
    crate::sw!(v.yxx(), [a[1], a[0], a[0]], "yxx");
    crate::sw!(v.yxy(), [a[1], a[0], a[1]], "yxy");
    crate::sw!(v.yxz(), [a[1], a[0], a[2]], "yxz");
    crate::sw!(v.yxw(), [a[1], a[0], a[3]], "yxw");
    crate::sw!(v.yyx(), [a[1], a[1], a[0]], "yyx");
    crate::sw!(v.yyy(), [a[1], a[1], a[1]], "yyy");
    crate::sw!(v.yyz(), [a[1], a[1], a[2]], "yyz");
    crate::sw!(v.yyw(), [a[1], a[1], a[3]], "yyw");
    crate::sw!(v.yzx(), [a[1], a[2], a[0]], "yzx");
    crate::sw!(v.yzy(), [a[1], a[2], a[1]], "yzy");
    crate::sw!(v.yzz(), [a[1], a[2], a[2]], "yzz");
    crate::sw!(v.yzw(), [a[1], a[2], a[3]], "yzw");
    crate::sw!(v.ywx(), [a[1], a[3], a[0]], "ywx");
    crate::sw!(v.ywy(), [a[1], a[3], a[1]], "ywy");
    crate::sw!(v.ywz(), [a[1], a[3], a[2]], "ywz");
    crate::sw!(v.yww(), [a[1], a[3], a[3]], "yww");
    crate::sw!(v.zxx(), [a[2], a[0], a[0]], "zxx");
    crate::sw!(v.zxy(), [a[2], a[0], a[1]], "zxy");
    crate::sw!(v.zxz(), [a[2], a[0], a[2]], "zxz");
    crate::sw!(v.zxw(), [a[2], a[0], a[3]], "zxw");
    crate::sw!(v.zyx(), [a[2], a[1], a[0]], "zyx");
    crate::sw!(v.zyy(), [a[2], a[1], a[1]], "zyy");
    crate::sw!(v.zyz(), [a[2], a[1], a[2]], "zyz");
    crate::sw!(v.zyw(), [a[2], a[1], a[3]], "zyw");
    crate::sw!(v.zzx(), [a[2], a[2], a[0]], "zzx");
    crate::sw!(v.zzy(), [a[2], a[2], a[1]], "zzy");
    crate::sw!(v.zzz(), [a[2], a[2], a[2]], "zzz");
    crate::sw!(v.zzw(), [a[2], a[2], a[3]], "zzw");
    crate::sw!(v.zwx(), [a[2], a[3], a[0]], "zwx");
    crate::sw!(v.zwy(), [a[2], a[3], a[1]], "zwy");
    crate::sw!(v.zwz(), [a[2], a[3], a[2]], "zwz");
    crate::sw!(v.zww(), [a[2], a[3], a[3]], "zww");
    crate::sw!(v.wxx(), [a[3], a[0], a[0]], "wxx");
    crate::sw!(v.wxy(), [a[3], a[0], a[1]], "wxy");
    crate::sw!(v.wxz(), [a[3], a[0], a[2]], "wxz");
    crate::sw!(v.wxw(), [a[3], a[0], a[3]], "wxw");
    crate::sw!(v.wyx(), [a[3], a[1], a[0]], "wyx");
    crate::sw!(v.wyy(), [a[3], a[1], a[1]], "wyy");
    crate::sw!(v.wyz(), [a[3], a[1], a[2]], "wyz");
    crate::sw!(v.wyw(), [a[3], a[1], a[3]], "wyw");
    crate::sw!(v.wzx(), [a[3], a[2], a[0]], "wzx");
    crate::sw!(v.wzy(), [a[3], a[2], a[1]], "wzy");
    crate::sw!(v.wzz(), [a[3], a[2], a[2]], "wzz");
    crate::sw!(v.wzw(), [a[3], a[2], a[3]], "wzw");
    crate::sw!(v.wwx(), [a[3], a[3], a[0]], "wwx");
    crate::sw!(v.wwy(), [a[3], a[3], a[1]], "wwy");
    crate::sw!(v.wwz(), [a[3], a[3], a[2]], "wwz");
    crate::sw!(v.www(), [a[3], a[3], a[3]], "www");
    crate::sw!(v.xxxx(), [a[0], a[0], a[0], a[0]], "xxxx");
    crate::sw!(v.xxxy(), [a[0], a[0], a[0], a[1]], "xxxy");
    crate::sw!(v.xxxz(), [a[0], a[0], a[0], a[2]], "xxxz");
    crate::sw!(v.xxxw(), [a[0], a[0], a[0], a[3]], "xxxw");
    crate::sw!(v.xxyx(), [a[0], a[0], a[1], a[0]], "xxyx");
    crate::sw!(v.xxyy(), [a[0], a[0], a[1], a[1]], "xxyy");
    crate::sw!(v.xxyz(), [a[0], a[0], a[1], a[2]], "xxyz");
    crate::sw!(v.xxyw(), [a[0], a[0], a[1], a[3]], "xxyw");
    crate::sw!(v.xxzx(), [a[0], a[0], a[2], a[0]], "xxzx");
    crate::sw!(v.xxzy(), [a[0], a[0], a[2], a[1]], "xxzy");
    crate::sw!(v.xxzz(), [a[0], a[0], a[2], a[2]], "xxzz");
    crate::sw!(v.xxzw(), [a[0], a[0], a[2], a[3]], "xxzw");
    crate::sw!(v.xxwx(), [a[0], a[0], a[3], a[0]], "xxwx");
    crate::sw!(v.xxwy(), [a[0], a[0], a[3], a[1]], "xxwy");
    crate::sw!(v.xxwz(), [a[0], a[0], a[3], a[2]], "xxwz");
    crate::sw!(v.xxww(), [a[0], a[0], a[3], a[3]], "xxww");
    crate::sw!(v.xyxx(), [a[0], a[1], a[0], a[0]], "xyxx");
    crate::sw!(v.xyxy(), [a[0], a[1], a[0], a[1]], "xyxy");
    crate::sw!(v.xyxz(), [a[0], a[1], a[0], a[2]], "xyxz");
    crate::sw!(v.xyxw(), [a[0], a[1], a[0], a[3]], "xyxw");
    crate::sw!(v.xyyx(), [a[0], a[1], a[1], a[0]], "xyyx");
    crate::sw!(v.xyyy(), [a[0], a[1], a[1], a[1]], "xyyy");
    crate::sw!(v.xyyz(), [a[0], a[1], a[1], a[2]], "xyyz");
    crate::sw!(v.xyyw(), [a[0], a[1], a[1], a[3]], "xyyw");
    crate::sw!(v.xyzx(), [a[0], a[1], a[2], a[0]], "xyzx");
    crate::sw!(v.xyzy(), [a[0], a[1], a[2], a[1]], "xyzy");
    crate::sw!(v.xyzz(), [a[0], a[1], a[2], a[2]], "xyzz");
    crate::sw!(v.xyzw(), [a[0], a[1], a[2], a[3]], "xyzw");
    crate::sw!(v.xywx(), [a[0], a[1], a[3], a[0]], "xywx");
    crate::sw!(v.xywy(), [a[0], a[1], a[3], a[1]], "xywy");
    crate::sw!(v.xywz(), [a[0], a[1], a[3], a[2]], "xywz");
    crate::sw!(v.xyww(), [a[0], a[1], a[3], a[3]], "xyww");
    crate::sw!(v.xzxx(), [a[0], a[2], a[0], a[0]], "xzxx");
    crate::sw!(v.xzxy(), [a[0], a[2], a[0], a[1]], "xzxy");
    crate::sw!(v.xzxz(), [a[0], a[2], a[0], a[2]], "xzxz");
    crate::sw!(v.xzxw(), [a[0], a[2], a[0], a[3]], "xzxw");
    crate::sw!(v.xzyx(), [a[0], a[2], a[1], a[0]], "xzyx");
    crate::sw!(v.xzyy(), [a[0], a[2], a[1], a[1]], "xzyy");
    crate::sw!(v.xzyz(), [a[0], a[2], a[1], a[2]], "xzyz");
    crate::sw!(v.xzyw(), [a[0], a[2], a[1], a[3]], "xzyw");
    crate::sw!(v.xzzx(), [a[0], a[2], a[2], a[0]], "xzzx");
    crate::sw!(v.xzzy(), [a[0], a[2], a[2], a[1]], "xzzy");
    crate::sw!(v.xzzz(), [a[0], a[2], a[2], a[2]], "xzzz");
    crate::sw!(v.xzzw(), [a[0], a[2], a[2], a[3]], "xzzw");
    crate::sw!(v.xzwx(), [a[0], a[2], a[3], a[0]], "xzwx");
    crate::sw!(v.xzwy(), [a[0], a[2], a[3], a[1]], "xzwy");
    crate::sw!(v.xzwz(), [a[0], a[2], a[3], a[2]], "xzwz");
    crate::sw!(v.xzww(), [a[0], a[2], a[3], a[3]], "xzww");
    crate::sw!(v.xwxx(), [a[0], a[3], a[0], a[0]], "xwxx");
    crate::sw!(v.xwxy(), [a[0], a[3], a[0], a[1]], "xwxy");
    crate::sw!(v.xwxz(), [a[0], a[3], a[0], a[2]], "xwxz");
    crate::sw!(v.xwxw(), [a[0], a[3], a[0], a[3]], "xwxw");
    crate::sw!(v.xwyx(), [a[0], a[3], a[1], a[0]], "xwyx");
    crate::sw!(v.xwyy(), [a[0], a[3], a[1], a[1]], "xwyy");
    crate::sw!(v.xwyz(), [a[0], a[3], a[1], a[2]], "xwyz");
    crate::sw!(v.xwyw(), [a[0], a[3], a[1], a[3]], "xwyw");
    crate::sw!(v.xwzx(), [a[0], a[3], a[2], a[0]], "xwzx");
    crate::sw!(v.xwzy(), [a[0], a[3], a[2], a[1]], "xwzy");
    crate::sw!(v.xwzz(), [a[0], a[3], a[2], a[2]], "xwzz");
    crate::sw!(v.xwzw(), [a[0], a[3], a[2], a[3]], "xwzw");
    crate::sw!(v.xwwx(), [a[0], a[3], a[3], a[0]], "xwwx");
    crate::sw!(v.xwwy(), [a[0], a[3], a[3], a[1]], "xwwy");
    crate::sw!(v.xwwz(), [a[0], a[3], a[3], a[2]], "xwwz");
    crate::sw!(v.xwww(), [a[0], a[3], a[3], a[3]], "xwww");
    crate::sw!(v.yxxx(), [a[1], a[0], a[0], a[0]], "yxxx");
    crate::sw!(v.yxxy(), [a[1], a[0], a[0], a[1]], "yxxy");
    crate::sw!(v.yxxz(), [a[1], a[0], a[0], a[2]], "yxxz");
    crate::sw!(v.yxxw(), [a[1], a[0], a[0], a[3]], "yxxw");
    crate::sw!(v.yxyx(), [a[1], a[0], a[1], a[0]], "yxyx");
    crate::sw!(v.yxyy(), [a[1], a[0], a[1], a[1]], "yxyy");
    crate::sw!(v.yxyz(), [a[1], a[0], a[1], a[2]], "yxyz");
    crate::sw!(v.yxyw(), [a[1], a[0], a[1], a[3]], "yxyw");
    crate::sw!(v.yxzx(), [a[1], a[0], a[2], a[0]], "yxzx");
    crate::sw!(v.yxzy(), [a[1], a[0], a[2], a[1]], "yxzy");
    crate::sw!(v.yxzz(), [a[1], a[0], a[2], a[2]], "yxzz");
    crate::sw!(v.yxzw(), [a[1], a[0], a[2], a[3]], "yxzw");
    crate::sw!(v.yxwx(), [a[1], a[0], a[3], a[0]], "yxwx");
    crate::sw!(v.yxwy(), [a[1], a[0], a[3], a[1]], "yxwy");
    crate::sw!(v.yxwz(), [a[1], a[0], a[3], a[2]], "yxwz");
    crate::sw!(v.yxww(), [a[1], a[0], a[3], a[3]], "yxww");
    crate::sw!(v.yyxx(), [a[1], a[1], a[0], a[0]], "yyxx");
    crate::sw!(v.yyxy(), [a[1], a[1], a[0], a[1]], "yyxy");
    crate::sw!(v.yyxz(), [a[1], a[1], a[0], a[2]], "yyxz");
    crate::sw!(v.yyxw(), [a[1], a[1], a[0], a[3]], "yyxw");
    crate::sw!(v.yyyx(), [a[1], a[1], a[1], a[0]], "yyyx");
    crate::sw!(v.yyyy(), [a[1], a[1], a[1], a[1]], "yyyy");
    crate::sw!(v.yyyz(), [a[1], a[1], a[1], a[2]], "yyyz");
    crate::sw!(v.yyyw(), [a[1], a[1], a[1], a[3]], "yyyw");
    crate::sw!(v.yyzx(), [a[1], a[1], a[2], a[0]], "yyzx");
    crate::sw!(v.yyzy(), [a[1], a[1], a[2], a[1]], "yyzy");
    crate::sw!(v.yyzz(), [a[1], a[1], a[2], a[2]], "yyzz");
    crate::sw!(v.yyzw(), [a[1], a[1], a[2], a[3]], "yyzw");
    crate::sw!(v.yywx(), [a[1], a[1], a[3], a[0]], "yywx");
    crate::sw!(v.yywy(), [a[1], a[1], a[3], a[1]], "yywy");
    crate::sw!(v.yywz(), [a[1], a[1], a[3], a[2]], "yywz");
    crate::sw!(v.yyww(), [a[1], a[1], a[3], a[3]], "yyww");
    crate::sw!(v.yzxx(), [a[1], a[2], a[0], a[0]], "yzxx");
    crate::sw!(v.yzxy(), [a[1], a[2], a[0], a[1]], "yzxy");
    crate::sw!(v.yzxz(), [a[1], a[2], a[0], a[2]], "yzxz");
    crate::sw!(v.yzxw(), [a[1], a[2], a[0], a[3]], "yzxw");
    crate::sw!(v.yzyx(), [a[1], a[2], a[1], a[0]], "yzyx");
    crate::sw!(v.yzyy(), [a[1], a[2], a[1], a[1]], "yzyy");
    crate::sw!(v.yzyz(), [a[1], a[2], a[1], a[2]], "yzyz");
    crate::sw!(v.yzyw(), [a[1], a[2], a[1], a[3]], "yzyw");
    crate::sw!(v.yzzx(), [a[1], a[2], a[2], a[0]], "yzzx");
    crate::sw!(v.yzzy(), [a[1], a[2], a[2], a[1]], "yzzy");
    crate::sw!(v.yzzz(), [a[1], a[2], a[2], a[2]], "yzzz");
    crate::sw!(v.yzzw(), [a[1], a[2], a[2], a[3]], "yzzw");
    crate::sw!(v.yzwx(), [a[1], a[2], a[3], a[0]], "yzwx");
    crate::sw!(v.yzwy(), [a[1], a[2], a[3], a[1]], "yzwy");
    crate::sw!(v.yzwz(), [a[1], a[2], a[3], a[2]], "yzwz");
    crate::sw!(v.yzww(), [a[1], a[2], a[3], a[3]], "yzww");
    crate::sw!(v.ywxx(), [a[1], a[3], a[0], a[0]], "ywxx");
    crate::sw!(v.ywxy(), [a[1], a[3], a[0], a[1]], "ywxy");
    crate::sw!(v.ywxz(), [a[1], a[3], a[0], a[2]], "ywxz");
    crate::sw!(v.ywxw(), [a[1], a[3], a[0], a[3]], "ywxw");
    crate::sw!(v.ywyx(), [a[1], a[3], a[1], a[0]], "ywyx");
    crate::sw!(v.ywyy(), [a[1], a[3], a[1], a[1]], "ywyy");
    crate::sw!(v.ywyz(), [a[1], a[3], a[1], a[2]], "ywyz");
    crate::sw!(v.ywyw(), [a[1], a[3], a[1], a[3]], "ywyw");
    crate::sw!(v.ywzx(), [a[1], a[3], a[2], a[0]], "ywzx");
    crate::sw!(v.ywzy(), [a[1], a[3], a[2], a[1]], "ywzy");
    crate::sw!(v.ywzz(), [a[1], a[3], a[2], a[2]], "ywzz");
    crate::sw!(v.ywzw(), [a[1], a[3], a[2], a[3]], "ywzw");
    crate::sw!(v.ywwx(), [a[1], a[3], a[3], a[0]], "ywwx");
    crate::sw!(v.ywwy(), [a[1], a[3], a[3], a[1]], "ywwy");
    crate::sw!(v.ywwz(), [a[1], a[3], a[3], a[2]], "ywwz");
    crate::sw!(v.ywww(), [a[1], a[3], a[3], a[3]], "ywww");
    crate::sw!(v.zxxx(), [a[2], a[0], a[0], a[0]], "zxxx");
    crate::sw!(v.zxxy(), [a[2], a[0], a[0], a[1]], "zxxy");
    crate::sw!(v.zxxz(), [a[2], a[0], a[0], a[2]], "zxxz");
    crate::sw!(v.zxxw(), [a[2], a[0], a[0], a[3]], "zxxw");
    crate::sw!(v.zxyx(), [a[2], a[0], a[1], a[0]], "zxyx");
    crate::sw!(v.zxyy(), [a[2], a[0], a[1], a[1]], "zxyy");
    crate::sw!(v.zxyz(), [a[2], a[0], a[1], a[2]], "zxyz");
    crate::sw!(v.zxyw(), [a[2], a[0], a[1], a[3]], "zxyw");
    crate::sw!(v.zxzx(), [a[2], a[0], a[2], a[0]], "zxzx");
    crate::sw!(v.zxzy(), [a[2], a[0], a[2], a[1]], "zxzy");
    crate::sw!(v.zxzz(), [a[2], a[0], a[2], a[2]], "zxzz");
    crate::sw!(v.zxzw(), [a[2], a[0], a[2], a[3]], "zxzw");
    crate::sw!(v.zxwx(), [a[2], a[0], a[3], a[0]], "zxwx");
    crate::sw!(v.zxwy(), [a[2], a[0], a[3], a[1]], "zxwy");
    crate::sw!(v.zxwz(), [a[2], a[0], a[3], a[2]], "zxwz");
    crate::sw!(v.zxww(), [a[2], a[0], a[3], a[3]], "zxww");
    crate::sw!(v.zyxx(), [a[2], a[1], a[0], a[0]], "zyxx");
    crate::sw!(v.zyxy(), [a[2], a[1], a[0], a[1]], "zyxy");
    crate::sw!(v.zyxz(), [a[2], a[1], a[0], a[2]], "zyxz");
    crate::sw!(v.zyxw(), [a[2], a[1], a[0], a[3]], "zyxw");
    crate::sw!(v.zyyx(), [a[2], a[1], a[1], a[0]], "zyyx");
    crate::sw!(v.zyyy(), [a[2], a[1], a[1], a[1]], "zyyy");
    crate::sw!(v.zyyz(), [a[2], a[1], a[1], a[2]], "zyyz");
    crate::sw!(v.zyyw(), [a[2], a[1], a[1], a[3]], "zyyw");
    crate::sw!(v.zyzx(), [a[2], a[1], a[2], a[0]], "zyzx");
    crate::sw!(v.zyzy(), [a[2], a[1], a[2], a[1]], "zyzy");
    crate::sw!(v.zyzz(), [a[2], a[1], a[2], a[2]], "zyzz");
    crate::sw!(v.zyzw(), [a[2], a[1], a[2], a[3]], "zyzw");
    crate::sw!(v.zywx(), [a[2], a[1], a[3], a[0]], "zywx");
    crate::sw!(v.zywy(), [a[2], a[1], a[3], a[1]], "zywy");
    crate::sw!(v.zywz(), [a[2], a[1], a[3], a[2]], "zywz");
    crate::sw!(v.zyww(), [a[2], a[1], a[3], a[3]], "zyww");
    crate::sw!(v.zzxx(), [a[2], a[2], a[0], a[0]], "zzxx");
    crate::sw!(v.zzxy(), [a[2], a[2], a[0], a[1]], "zzxy");
    crate::sw!(v.zzxz(), [a[2], a[2], a[0], a[2]], "zzxz");
    crate::sw!(v.zzxw(), [a[2], a[2], a[0], a[3]], "zzxw");
    crate::sw!(v.zzyx(), [a[2], a[2], a[1], a[0]], "zzyx");
    crate::sw!(v.zzyy(), [a[2], a[2], a[1], a[1]], "zzyy");
    crate::sw!(v.zzyz(), [a[2], a[2], a[1], a[2]], "zzyz");
    crate::sw!(v.zzyw(), [a[2], a[2], a[1], a[3]], "zzyw");
    crate::sw!(v.zzzx(), [a[2], a[2], a[2], a[0]], "zzzx");
    crate::sw!(v.zzzy(), [a[2], a[2], a[2], a[1]], "zzzy");
    crate::sw!(v.zzzz(), [a[2], a[2], a[2], a[2]], "zzzz");
    crate::sw!(v.zzzw(), [a[2], a[2], a[2], a[3]], "zzzw");
    crate::sw!(v.zzwx(), [a[2], a[2], a[3], a[0]], "zzwx");
    crate::sw!(v.zzwy(), [a[2], a[2], a[3], a[1]], "zzwy");
    crate::sw!(v.zzwz(), [a[2], a[2], a[3], a[2]], "zzwz");
    crate::sw!(v.zzww(), [a[2], a[2], a[3], a[3]], "zzww");
    crate::sw!(v.zwxx(), [a[2], a[3], a[0], a[0]], "zwxx");
    crate::sw!(v.zwxy(), [a[2], a[3], a[0], a[1]], "zwxy");
    crate::sw!(v.zwxz(), [a[2], a[3], a[0], a[2]], "zwxz");
    crate::sw!(v.zwxw(), [a[2], a[3], a[0], a[3]], "zwxw");
    crate::sw!(v.zwyx(), [a[2], a[3], a[1], a[0]], "zwyx");
    crate::sw!(v.zwyy(), [a[2], a[3], a[1], a[1]], "zwyy");
    crate::sw!(v.zwyz(), [a[2], a[3], a[1], a[2]], "zwyz");
    crate::sw!(v.zwyw(), [a[2], a[3], a[1], a[3]], "zwyw");
    crate::sw!(v.zwzx(), [a[2], a[3], a[2], a[0]], "zwzx");
    crate::sw!(v.zwzy(), [a[2], a[3], a[2], a[1]], "zwzy");
    crate::sw!(v.zwzz(), [a[2], a[3], a[2], a[2]], "zwzz");
    crate::sw!(v.zwzw(), [a[2], a[3], a[2], a[3]], "zwzw");
    crate::sw!(v.zwwx(), [a[2], a[3], a[3], a[0]], "zwwx");
    crate::sw!(v.zwwy(), [a[2], a[3], a[3], a[1]], "zwwy");
    crate::sw!(v.zwwz(), [a[2], a[3], a[3], a[2]], "zwwz");
    crate::sw!(v.zwww(), [a[2], a[3], a[3], a[3]], "zwww");
    crate::sw!(v.wxxx(), [a[3], a[0], a[0], a[0]], "wxxx");
    crate::sw!(v.wxxy(), [a[3], a[0], a[0], a[1]], "wxxy");
    crate::sw!(v.wxxz(), [a[3], a[0], a[0], a[2]], "wxxz");
    crate::sw!(v.wxxw(), [a[3], a[0], a[0], a[3]], "wxxw");
    crate::sw!(v.wxyx(), [a[3], a[0], a[1], a[0]], "wxyx");
    crate::sw!(v.wxyy(), [a[3], a[0], a[1], a[1]], "wxyy");
    crate::sw!(v.wxyz(), [a[3], a[0], a[1], a[2]], "wxyz");
    crate::sw!(v.wxyw(), [a[3], a[0], a[1], a[3]], "wxyw");
    crate::sw!(v.wxzx(), [a[3], a[0], a[2], a[0]], "wxzx");
    crate::sw!(v.wxzy(), [a[3], a[0], a[2], a[1]], "wxzy");
    crate::sw!(v.wxzz(), [a[3], a[0], a[2], a[2]], "wxzz");
    crate::sw!(v.wxzw(), [a[3], a[0], a[2], a[3]], "wxzw");
    crate::sw!(v.wxwx(), [a[3], a[0], a[3], a[0]], "wxwx");
    crate::sw!(v.wxwy(), [a[3], a[0], a[3], a[1]], "wxwy");
    crate::sw!(v.wxwz(), [a[3], a[0], a[3], a[2]], "wxwz");
    crate::sw!(v.wxww(), [a[3], a[0], a[3], a[3]], "wxww");
    crate::sw!(v.wyxx(), [a[3], a[1], a[0], a[0]], "wyxx");
    crate::sw!(v.wyxy(), [a[3], a[1], a[0], a[1]], "wyxy");
    crate::sw!(v.wyxz(), [a[3], a[1], a[0], a[2]], "wyxz");
    crate::sw!(v.wyxw(), [a[3], a[1], a[0], a[3]], "wyxw");
    crate::sw!(v.wyyx(), [a[3], a[1], a[1], a[0]], "wyyx");
    crate::sw!(v.wyyy(), [a[3], a[1], a[1], a[1]], "wyyy");
    crate::sw!(v.wyyz(), [a[3], a[1], a[1], a[2]], "wyyz");
    crate::sw!(v.wyyw(), [a[3], a[1], a[1], a[3]], "wyyw");
    crate::sw!(v.wyzx(), [a[3], a[1], a[2], a[0]], "wyzx");
    crate::sw!(v.wyzy(), [a[3], a[1], a[2], a[1]], "wyzy");
    crate::sw!(v.wyzz(), [a[3], a[1], a[2], a[2]], "wyzz");
    crate::sw!(v.wyzw(), [a[3], a[1], a[2], a[3]], "wyzw");
    crate::sw!(v.wywx(), [a[3], a[1], a[3], a[0]], "wywx");
    crate::sw!(v.wywy(), [a[3], a[1], a[3], a[1]], "wywy");
    crate::sw!(v.wywz(), [a[3], a[1], a[3], a[2]], "wywz");
    crate::sw!(v.wyww(), [a[3], a[1], a[3], a[3]], "wyww");
    crate::sw!(v.wzxx(), [a[3], a[2], a[0], a[0]], "wzxx");
    crate::sw!(v.wzxy(), [a[3], a[2], a[0], a[1]], "wzxy");
    crate::sw!(v.wzxz(), [a[3], a[2], a[0], a[2]], "wzxz");
    crate::sw!(v.wzxw(), [a[3], a[2], a[0], a[3]], "wzxw");
    crate::sw!(v.wzyx(), [a[3], a[2], a[1], a[0]], "wzyx");
    crate::sw!(v.wzyy(), [a[3], a[2], a[1], a[1]], "wzyy");
    crate::sw!(v.wzyz(), [a[3], a[2], a[1], a[2]], "wzyz");
    crate::sw!(v.wzyw(), [a[3], a[2], a[1], a[3]], "wzyw");
    crate::sw!(v.wzzx(), [a[3], a[2], a[2], a[0]], "wzzx");
    crate::sw!(v.wzzy(), [a[3], a[2], a[2], a[1]], "wzzy");
    crate::sw!(v.wzzz(), [a[3], a[2], a[2], a[2]], "wzzz");
    crate::sw!(v.wzzw(), [a[3], a[2], a[2], a[3]], "wzzw");
    crate::sw!(v.wzwx(), [a[3], a[2], a[3], a[0]], "wzwx");
    crate::sw!(v.wzwy(), [a[3], a[2], a[3], a[1]], "wzwy");
    crate::sw!(v.wzwz(), [a[3], a[2], a[3], a[2]], "wzwz");
    crate::sw!(v.wzww(), [a[3], a[2], a[3], a[3]], "wzww");
    crate::sw!(v.wwxx(), [a[3], a[3], a[0], a[0]], "wwxx");
    crate::sw!(v.wwxy(), [a[3], a[3], a[0], a[1]], "wwxy");
    crate::sw!(v.wwxz(), [a[3], a[3], a[0], a[2]], "wwxz");
    crate::sw!(v.wwxw(), [a[3], a[3], a[0], a[3]], "wwxw");
    crate::sw!(v.wwyx(), [a[3], a[3], a[1], a[0]], "wwyx");
    crate::sw!(v.wwyy(), [a[3], a[3], a[1], a[1]], "wwyy");
    crate::sw!(v.wwyz(), [a[3], a[3], a[1], a[2]], "wwyz");
    crate::sw!(v.wwyw(), [a[3], a[3], a[1], a[3]], "wwyw");
    crate::sw!(v.wwzx(), [a[3], a[3], a[2], a[0]], "wwzx");
    crate::sw!(v.wwzy(), [a[3], a[3], a[2], a[1]], "wwzy");
    crate::sw!(v.wwzz(), [a[3], a[3], a[2], a[2]], "wwzz");
    crate::sw!(v.wwzw(), [a[3], a[3], a[2], a[3]], "wwzw");
    crate::sw!(v.wwwx(), [a[3], a[3], a[3], a[0]], "wwwx");
    crate::sw!(v.wwwy(), [a[3], a[3], a[3], a[1]], "wwwy");
    crate::sw!(v.wwwz(), [a[3], a[3], a[3], a[2]], "wwwz");
    crate::sw!(v.wwww(), [a[3], a[3], a[3], a[3]], "wwww");
    Ok(())
}
pub fn point1<S: Copy + PartialEq + std::fmt::Debug>(v: &crate::Point1<S>, a: [S; 1]) -> Result<(), String> {
    crate::sw!(v.x(), [a[0]], "x");
    Ok(())
}
pub fn point2<S: Copy + PartialEq + std::fmt::Debug>(v: &crate::Point2<S>, a: [S; 2]) -> Result<(), String> {
    crate::sw!(v.x(), [a[0]], "x");
    crate::sw!(v.y(), [a[1]], "y");
    crate::sw!(v.xx(), [a[0], a[0]], "xx");
    crate::sw!(v.xy(), [a[0], a[1]], "xy");
    crate::sw!(v.yx(), [a[1], a[0]], "yx");
    crate::sw!(v.yy(), [a[1], a[1]], "yy");
    Ok(())
}
pub fn point3<S: Copy + PartialEq + std::fmt::Debug>(v: &crate::Point3<S>, a: [S; 3]) -> Result<(), String> {
    crate::sw!(v.x(), [a[0]], "x");
    crate::sw!(v.y(), [a[1]], "y");
    crate::sw!(v.z(), [a[2]], "z");
    crate::sw!(v.xx(), [a[0], a[0]], "xx");
    crate::sw!(v.xy(), [a[0], a[1]], "xy");
    crate::sw!(v.xz(), [a[0], a[2]], "xz");
    crate::sw!(v.yx(), [a[1], a[0]], "yx");
    crate::sw!(v.yy(), [a[1], a[1]], "yy");
    crate::sw!(v.yz(), [a[1], a[2]], "yz");
    crate::sw!(v.zx(), [a[2], a[0]], "zx");
    crate::sw!(v.zy(), [a[2], a[1]], "zy");
    crate::sw!(v.zz(), [a[2], a[2]], "zz");
    crate::sw!(v.xxx(), [a[0], a[0], a[0]], "xxx");
    crate::sw!(v.xxy(), [a[0], a[0], a[1]], "xxy");
    crate::sw!(v.xxz(), [a[0], a[0], a[2]], "xxz");
    crate::sw!(v.xyx(), [a[0], a[1], a[0]], "xyx");
    crate::sw!(v.xyy(), [a[0], a[1], a[1]], "xyy");
    crate::sw!(v.xyz(), [a[0], a[1], a[2]], "xyz");
    crate::sw!(v.xzx(), [a[0], a[2], a[0]], "xzx");
    crate::sw!(v.xzy(), [a[0], a[2], a[1]], "xzy");
    crate::sw!(v.xzz(), [a[0], a[2], a[2]], "xzz");
    crate::sw!(v.yxx(), [a[1], a[0], a[0]], "yxx");
    crate::sw!(v.yxy(), [a[1], a[0], a[1]], "yxy");
    crate::sw!(v.yxz(), [a[1], a[0], a[2]], "yxz");
    crate::sw!(v.yyx(), [a[1], a[1], a[0]], "yyx");
    crate::sw!(v.yyy(), [a[1], a[1], a[1]], "yyy");
    crate::sw!(v.yyz(), [a[1], a[1], a[2]], "yyz");
    crate::sw!(v.yzx(), [a[1], a[2], a[0]], "yzx");
    crate::sw!(v.yzy(), [a[1], a[2], a[1]], "yzy");
    crate::sw!(v.yzz(), [a[1], a[2], a[2]], "yzz");
    crate::sw!(v.zxx(), [a[2], a[0], a[0]], "zxx");
    crate::sw!(v.zxy(), [a[2], a[0], a[1]], "zxy");
    crate::sw!(v.zxz(), [a[2], a[0], a[2]], "zxz");
    crate::sw!(v.zyx(), [a[2], a[1], a[0]], "zyx");
    crate::sw!(v.zyy(), [a[2], a[1], a[1]], "zyy");
    crate::sw!(v.zyz(), [a[2], a[1], a[2]], "zyz");
    crate::sw!(v.zzx(), [a[2], a[2], a[0]], "zzx");
    crate::sw!(v.zzy(), [a[2], a[2], a[1]], "zzy");
    crate::sw!(v.zzz(), [a[2], a[2], a[2]], "zzz");
    Ok(())
}
