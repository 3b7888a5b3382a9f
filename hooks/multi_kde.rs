use super::*;
//@block k_parts
pub fn peak_index(e: &[f32], order: usize) -> Vec<usize> { MultiKDEBase::new(e.len(), order).find_peak_index(ndarray::aview1(e)) }
pub fn peak_values(e: &[f32], order: usize, lo: f32, hi: f32) -> Vec<f32> { MultiKDEBase::new(e.len(), order).find_peak_values(ndarray::aview1(e), lo, hi) }
pub fn assign(points: &[f32], peaks: &[f32]) -> Vec<f32> { MultiKDEBase::default().assign_closest_peak_values(ndarray::aview1(points).insert_axis(Axis(1)), peaks.to_vec()).to_vec() }
pub fn labels(rows: &[Vec<f32>]) -> (Vec<usize>, Vec<Vec<f32>>) {
    let a = Array2::from_shape_vec((rows.len(), rows[0].len()), rows.concat()).unwrap();
    let (l, c) = MultiKDEBase::default().extract_labels_from_centers(a);
    (l, c.outer_iter().map(|r| r.to_vec()).collect())
}
