"""What MANIFEST.json says about each check: deciding method, and what it does not reach."""
_TR = "; traces of the real library validated against it by TLC"
_GEN = "; programs enumerated and simulated by TLC replayed into the real library"
_STORE = "TLA+ state machine of tensor variables (TensorStore) model-checked by TLC" + _GEN + _TR
_LAWS = "; algebraic laws of the definitions model-checked over all shapes in scope"
_LAYER = "TLA+ state machine of layers (LayerStore) model-checked by TLC against derivative laws" + _GEN + _TR
_OPT = "TLA+ state machine of optimizers and parameters (OptStore) model-checked by TLC" + _GEN + _TR
NOTES = {
    "P01": (_STORE, "Random histories have up to 80 calls over a handful of live tensors."),
    "P02": (_STORE + _LAWS, "Ranks up to 5 in random programs."),
    "P03": (_STORE + _LAWS, "Zero divisors in tensor/tensor division are left out; results beyond the range of the type may be infinite."),
    "P04": (_STORE, "Accuracy is judged up to a rounding bound that allows any order of evaluation."),
    "P05": (_STORE + _LAWS, "Accuracy is judged up to a rounding bound that allows any order of summation; duplicate axes are left out."),
    "P06": (_STORE + _LAWS, "Accuracy is judged up to a rounding bound that allows any order of summation."),
    "P07": (_STORE + _LAWS, "View starts outside the range and steps below 1 are left out."),
    "P08": (_LAYER + "; functional identities of the activations model-checked on a grid", "Accuracy up to a few units in the last place of the range of the function."),
    "P09": (_LAYER, "Either one-sided derivative is accepted at a kink."),
    "P10": (_LAYER, "Inputs of rank 1 and 2."),
    "P11": (_LAYER + "; padding, dilation, stride and 1x1 identities model-checked", "Images up to a dozen pixels a side in random programs."),
    "P12": (_LAYER, "Ties in tensors of any size may go to any maximum; they are generated in small tensors only."),
    "P13": (_LAYER, ""),
    "P14": (_LAYER, "Running statistics are not observable and are judged through what evaluation returns."),
    "P15": (_LAYER + "; masks of many passes judged by counts that the specification bounds", "Independence is judged at six standard deviations for neighbours, rows, items and consecutive passes."),
    "P16": ("TLA+ definitions of losses, gradient law model-checked by TLC" + _TR, ""),
    "P17": (_OPT, "Options and histories are sampled; hidden state is carried as intervals of the element type's rounding."),
    "P18": (_OPT, "As P17; where an interval of a denominator reaches zero nothing is required."),
    "P19": (_OPT, "As P18."),
    "P20": (_OPT, "Aliased use of one tensor object in one call is left out."),
    "P21": ("TLA+ state machine of training and prediction (Control) over recording layers, loss and optimizer, model-checked by TLC" + _GEN + _TR, "Layers, loss and optimizer are recording stand-ins of the public interfaces."),
    "P22": ("TLA+ composition of layers, loss and optimizer (NetStore, TapStore): each call inside real training judged, and the result compared with training computed exactly by the specification", "The end-to-end tolerance is scaled by how far a perturbed exact training diverges; training that diverges is judged call by call only."),
    "P23": ("TLA+ composition of layers in evaluation mode (NetStore)" + _TR, ""),
    "P24": ("TLA+ state machine of the shared random stream (RngStore) model-checked by TLC" + _GEN + _TR, "Distributions are judged by moments of a few thousand draws."),
    "P25": ("TLA+ definition of the file format and of batching (Mnist) model-checked by TLC over small files" + _GEN + _TR, ""),
    "P26": ("TLA+ definition of acceptable files (Mnist): every truncation and corruption in scope enumerated by TLC and given to the real loader", "Files the format allows but nobody writes (other extents, trailing bytes) may be refused or loaded, but never completed."),
    "P27": ("TLA+ relation between samples and requests (Datasets, DataStore)" + _TR, "Noise is judged by its mean, deviation and the independence of neighbours over a few thousand samples."),
    "P28": ("TLA+ model of a parallel loop (all interleavings of all distributions, MC_Parallel) reduces it to independence of iterations, which is checked by TLC on the accesses recorded from the real OpenMP builds", "Loops of at most 64 iterations are put on a thread each, so that any pair of iterations that conflict is seen; memory touched through uninstrumented libraries is not."),
    "P29": ("TLA+ definition of the text of tensors, shapes and progress" + _TR, "Numbers as C++ streams print them."),
}
