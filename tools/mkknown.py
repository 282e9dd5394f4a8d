import json
F=[
("C01","2a107fc","Contractable.global_bs was one class attribute for all threads and models: a concurrent caller with another batch size got wrong shapes or values"),
("C02","2a107fc","regions and end vectors without batch index expanded to the batch size of an earlier call (or of no call at all)"),
("C02","93a0414","InputRegion with a single site failed on evaluation"),
("C02","b565963","a tensor given as MPS path failed on construction or evaluation"),
("C03","7c7d57f","adaptive MPS with one or two sites beside the output raised on construction or shift"),
("C05","a0a4038","a merge shift which failed or was interrupted midway left a mixture of old and new cores"),
("C07","54c8725","merge offset and input counter of an adaptive MPS were not saved: the restored model evaluated stale cores and shifted at other times"),
("C07","04c3ffc","parameters of a TrainableEmbedding were neither saved nor trained"),
("C08","04c3ffc","copies of a model with a TrainableEmbedding failed or dropped its parameters"),
("C09","04c3ffc","lamb_mat of a TrainableEmbedding was computed once and lagged behind its parameters"),
("C10","04c3ffc","parameters of a TrainableEmbedding were not among the model's parameters"),
("C10","dd8d0ab","a plain function could not replace a feature map that is a Module"),
("C11","43fed28","joint_shuffle and load_HV_data paired data and labels through global generator state, so another thread's draw mixed up labels"),
("C12","43fed28","joint_shuffle and load_HV_data reseeded the global NumPy generator"),
("C11","71c5757","load_HV_data raised with current NumPy (np.int)"),
("C14","8f095fd","TI_MPS padded raw sequences before embedding, so padding changed the result of shorter sequences"),
("C09","951e65f","slim_eval together with parallel_eval ignored parallel_eval (and failed with bias)"),
("C09","da3b08a","trig_embed needed the undeclared dependency scipy"),
("C09","0d25a8e","lamb_mat was taken for a multiple of the identity when its entries were all small"),
("C02","642797d","MPS and TI_MPS converted to another dtype raised or mixed dtypes on evaluation"),
("C09","61a2ffe","complex ProbMPS with an embedding whose lamb_mat is not diagonal raised"),
("C09","9502406","realify rejected valid results of large scale because imaginary parts were compared absolutely"),
("C09","fa716b7","realify raised when the default dtype differs from that of the parameters"),
("C09","c7be39a","log_norm ignored the embedding when a bias matrix is used, so probabilities did not integrate to one"),
("C09","402d226","sequences whose amplitude is exactly zero gave NaN instead of -inf"),
("C10","ecb3e25","a trainable embedding whose lamb_mat happened to be diagonal (say, a table initialised to the identity) got a wrong gradient of the normalisation"),
("C09","ecb3e25","gradient of the log probabilities wrong for a trainable embedding whose lamb_mat happened to be diagonal"),
("C14","402d226","one amplitude which is exactly zero made its result NaN only in some evaluation modes"),
("C03","d56b5b2","a zero core turned every core of an adaptive MPS into NaN at the next shift"),
("C06","63d3e49","names and order of an adaptive MPS's parameters changed with every shift"),
("C07","63d3e49","optimizer state saved by parameter order no longer fitted a rebuilt adaptive MPS after an odd number of shifts"),
("C10","a7e96f1","an interrupt between dropping a Module map and setting the new one left the model without any feature map"),
("C15","cc954e9","svd_flex returned wrong factors for complex tensors (no conjugate), or raised with max_D"),
("C17","7708790","init_tensor raised when init_dim exceeds one of two unequal bond dimensions"),
("C17","419ef49","normal_init ignored rel_std"),
("C16","7cd81f8","contract_matseq raised for a boundary vector which requires grad and no matrices"),
("C17","f1ace9a","init_tensor did not give an identity when the right bond comes before the left one"),
]
import os
p='/verif/known_findings.json'
json.dump({"known":[],"fixed":[f"fixed: property={a} {b} {c}" for a,b,c in F]},open(p,'w'),indent=1)
