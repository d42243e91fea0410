//# include matrices
impl ConvFrom<&Graph> for NAMatrix {
//# include nagconv
//# ext nalgebra::From<&Graph>@NAMatrix::from
}
