"""Reference definitions for braidsearch: what each operation yields, changes and refuses, as a definition to compare by meaning, not text."""
import collections
import dataclasses
import functools
import math
import random
import typing
from typing import Dict, List, Sequence, Set, Tuple
import numpy as np
import numpy.typing as npt
import pandas as pd
from . import polymat, tl
from .braid import GNF, BraidGroup
from .lpoly import LPoly
from .matrix import Matrix
from .permutations import SymmetricGroup

def tl_gens_invs(n):
    v = LPoly(0, (0, 1))
    es = [tl.TLMor.e(i, n) for i in range(n - 1)]
    gens = [-v * (e - v ** (-1)) for e in es]
    invs = [-v ** (-1) * (e - v) for e in es]
    assert all((x * y == tl.TLMor.id(n) for x, y in zip(gens, invs)))
    return (gens, invs)

def cell_matrix(tlmor, r):
    assert tlmor.top == tlmor.bot
    basis = tl.cell_basis(tlmor.bot, r)
    columns = [[prod.quotient(tlmor.top - 2 * r).coefficient(b) for b in basis] for prod in [tlmor * b for b in basis]]
    return Matrix.from_rows(tuple(zip(*columns)))

def cell_matrices(n, r):
    tlgens, tlinvs = tl_gens_invs(n)
    return ([cell_matrix(g, r) for g in tlgens], [cell_matrix(g, r) for g in tlinvs])

class JonesSummand:

    def __post_init__(self):
        assert self.n >= 1
        assert self.n - 2 * self.r >= 0
        assert self.p >= 0

    def dtype(self):
        return np.int32 if self.p > 0 else np.int64

    def dimension(self):
        return tl.cell_dimension(self.n, self.r)

    def id(self):
        return np.identity(self.dimension(), dtype=self.dtype())[..., None]

    def artin_gens_invs(self):
        gens, invs = cell_matrices(self.n, self.r)
        matgens = polymat.pack([polymat.from_matrix(x, dtype=self.dtype()) for x in gens])
        matinvs = polymat.pack([polymat.from_matrix(x, dtype=self.dtype(), proj=True) for x in invs])
        if self.p != 0:
            matgens %= self.p
            matinvs %= self.p
        return (polymat.projectivise(matgens), polymat.projectivise(matinvs))

    def mul(self, left, right):
        product = polymat.mul(left, right)
        if self.p != 0:
            product = product % self.p
        return polymat.projectivise(product)

def batched(iterable, chunk_length):
    assert chunk_length >= 1
    chunk = []
    for x in iterable:
        chunk.append(x)
        if len(chunk) == chunk_length:
            yield chunk
            chunk = []
    if len(chunk) > 0:
        yield chunk

def symmetric_table(rep):
    gens, invs = rep.artin_gens_invs()
    eye = rep.id()
    table = {perm: polymat.projectivise(functools.reduce(rep.mul, [gens[s] for s in perm.shortlex()], eye)) for perm in SymmetricGroup(rep.n).elements()}
    w0 = SymmetricGroup(rep.n).longest_element()
    assert np.equal(rep.mul(table[w0], table[w0]), eye).all()
    return table

def evaluate_braid_factors(rep, braid):
    inf, factors = braid.canonical_decomposition()
    start = rep.id()
    table = symmetric_table(rep)
    w0 = SymmetricGroup(rep.n).longest_element()
    start = rep.id() if inf % 2 == 0 else table[w0]
    return polymat.projectivise(functools.reduce(rep.mul, [table[factor] for factor in factors], start))

def evaluate_braids_of_same_length(rep, braids):
    length = braids[0].garside_length()
    assert all((braid.garside_length() == length for braid in braids))
    factors = [braid.canonical_factors() for braid in braids]
    table = symmetric_table(rep)
    w0 = SymmetricGroup(rep.n).longest_element()
    eye = rep.id()
    anti = table[w0]
    images = polymat.pack([eye if braid.inf() % 2 == 0 else anti for braid in braids])
    for l in range(length):
        perm_images = polymat.pack([table[factors[i][l]] for i in range(len(braids))])
        images = rep.mul(images, perm_images)
    return images

def evaluate_prefixes_of_same_length(rep, braids):
    length = braids[0].garside_length()
    assert all((braid.garside_length() == length for braid in braids))
    factors = [braid.canonical_factors() for braid in braids]
    table = symmetric_table(rep)
    w0 = SymmetricGroup(rep.n).longest_element()
    eye = rep.id()
    anti = table[w0]
    images = [polymat.pack([eye if braid.inf() % 2 == 0 else anti for braid in braids])]
    for l in range(length):
        perm_images = polymat.pack([table[factors[i][l]] for i in range(len(braids))])
        images += [rep.mul(images[-1], perm_images)]
    return images

def evaluate_braids(rep, braids):
    indices_by_length: typing.DefaultDict[int, List[int]] = collections.defaultdict(list)
    index_location = []
    for i, braid in enumerate(braids):
        length = braid.garside_length()
        index_location.append((length, len(indices_by_length[length])))
        indices_by_length[length] += [i]
    images_by_length = {length: evaluate_braids_of_same_length(rep, [braids[i] for i in indices]) for length, indices in indices_by_length.items()}
    return [images_by_length[length][i] for length, i in index_location]

def sample_braids_images(rep, length, count, rand):
    braids = [BraidGroup(rep.n).sample_braid_perm(length, rand=rand) for _ in range(count)]
    return (braids, evaluate_braids_of_same_length(rep, braids))

def sample_braids_images_upto_length(rep, from_length, upto_length, count, rand):
    pairs = [sample_braids_images(rep, length=length, count=count, rand=rand) for length in range(from_length, upto_length + 1)]
    braids = [braid for braids, _ in pairs for braid in braids]
    images = polymat.concatenate([images for _, images in pairs])
    return (braids, images)

def braids_images_to_dataframe(braids, images):
    if isinstance(images, np.ndarray):
        assert len(images.shape) == 4
        assert images.shape[0] == len(braids)
        image_list = [images[i] for i in range(images.shape[0])]
    elif isinstance(images, list):
        image_list = list(images)
    else:
        raise ValueError()
    df = pd.DataFrame.from_dict({'braid': braids, 'image': image_list})
    df['length'] = df['braid'].apply(lambda x: x.garside_length())
    df['nz_terms'] = df['image'].apply(polymat.nz_terms)
    df['degmax'] = df['image'].apply(polymat.degmax)
    df['valmin'] = df['image'].apply(polymat.valmin)
    df['rhogap'] = df['image'].apply(polymat.rhogap)
    df['rhogap/length'] = df['rhogap'] / df['length']
    return df

def braids_images_to_dataframe(braids, images):
    if isinstance(images, np.ndarray):
        assert len(images.shape) == 4
        assert images.shape[0] == len(braids)
        image_list = list(images)
    elif isinstance(images, list):
        image_list = list(images)
    else:
        raise ValueError()
    df = pd.DataFrame.from_dict({'braid': braids, 'image': image_list})
    df['length'] = df['braid'].apply(lambda x: x.garside_length())
    df['nz_terms'] = df['image'].apply(polymat.nz_terms)
    df['degmax'] = df['image'].apply(polymat.degmax)
    df['valmin'] = df['image'].apply(polymat.valmin)
    df['rhogap'] = df['image'].apply(polymat.rhogap)
    df['rhogap/length'] = df['rhogap'] / df['length']
    return df

def all_of_length_below_1(rep, length):
    good_braids = []
    good_images = []
    B = BraidGroup(rep.n)
    for braids in batched(B.all_of_garside_length(length), 1000):
        images = evaluate_braids_of_same_length(rep, braids)
        rhogap = polymat.rhogap(images)
        indices, = np.nonzero(rhogap / length < 1.0)
        if len(indices) > 0:
            good_braids += [braids[i] for i in indices]
            good_images += [images[indices]]
    return (good_braids, polymat.concatenate(good_images))

class Tracker:

    def __init__(self, rep, bucket_size, bucket_keys, criterion, rand, minimise):
        self.rep = rep
        self.bucket_size = bucket_size
        assert 'length' in bucket_keys
        assert 'projlen' in bucket_keys
        self.bucket_keys = list(bucket_keys)
        self.criterion = criterion
        self.buckets: Set[Tuple] = set()
        self.bucket_braids: Dict[Tuple, List[GNF]] = {}
        self.bucket_images: Dict[Tuple, npt.NDArray] = {}
        self.image_hashes: Dict[int, List[GNF]] = {}
        self.bucket_braid_set: Dict[Tuple, Set[GNF]] = {}
        self.bucket_reservoir_counts: Dict[Tuple, int] = {}
        self.rand = rand
        self.bucket_heap: Dict[Tuple, List[Tuple]] = {}
        self.minimise = minimise if minimise is not None else lambda x: np.full(shape=x.shape[:-3], fill_value=0, dtype=np.int64)

    def discard_bucket(self, bucket):
        if bucket not in self.buckets:
            return
        self.buckets.remove(bucket)
        del self.bucket_braids[bucket]
        del self.bucket_images[bucket]
        if bucket in self.bucket_braid_set:
            del self.bucket_braid_set[bucket]

    def braid_image_stats(self, braids, images):
        assert len(images.shape) == 4 and images.shape[0] == len(braids)
        braid_lengths = np.array([braid.garside_length() for braid in braids])
        return pd.DataFrame.from_dict({'length': braid_lengths, 'nz_terms': polymat.nz_terms(images), 'degmax': polymat.degmax(images), 'valmin': polymat.valmin(images), 'rhogap': polymat.rhogap(images), 'projlen': polymat.projlen(images), 'rhogap/length': polymat.rhogap(images) / braid_lengths.clip(min=1), 'projrank2': polymat.projrank(images, terms=2)})

    def bucket_stats(self, bucket):
        if bucket not in self.buckets:
            raise ValueError()
        return self.braid_image_stats(*self.bucket_braids_images(bucket))

    def bucket_braids_images(self, bucket):
        assert bucket in self.buckets
        braids = self.bucket_braids[bucket]
        images = self.bucket_images[bucket][:len(braids), ...]
        return (braids, images)

    def stats(self):
        df = pd.DataFrame(columns=['bucket', 'count', *self.bucket_keys], data=[(bucket, len(self.bucket_braids[bucket]), *bucket) for bucket in self.buckets])
        df['rhogap/length'] = (df['projlen'] - 1) / 2 / df['length']
        if self.rand is not None:
            df['reservoir_count'] = df['bucket'].apply(self.bucket_reservoir_counts.get)
        return df

    def stats_reservoir(self):
        return pd.DataFrame(columns=['bucket', *self.bucket_keys, 'reservoir_count'], data=[(bucket, *bucket, count) for bucket, count in self.bucket_reservoir_counts.items()])

    def valiate_buckets(self):
        for bucket in self.buckets:
            braids, images = self.bucket_braids_images(bucket)
            actual = evaluate_braids_of_same_length(self.rep, braids)
            if not np.all(images == actual):
                print(f'A braid image is wrong in bucket {bucket}')
                for i in range(len(braids)):
                    if not np.all(images[i] == actual[i]):
                        print(f'Braid index {i}, {braids[i]}')
                        print('Actual representation value:')
                        print(actual[i])
                        print('What we have:')
                        print(images[i])
                        return (braids[i], actual[i], images[i])
        return 'All bucket entries are sound.'

    def add_braids_images(self, braids, images):
        stats = self.braid_image_stats(braids, images)
        keep = self.criterion(stats)
        indices = [i for i in range(len(keep)) if keep[i]]
        lengths = [braid.garside_length() for braid in braids]
        projlens = polymat.projlen(images)
        self.minimise(images)
        kept = []
        for i in indices:
            braid, image = (braids[i], images[i])
            bucket = (lengths[i], projlens[i])
            if bucket not in self.buckets:
                self.buckets |= {bucket}
                self.bucket_braids[bucket] = [braid]
                self.bucket_braid_set[bucket] = {braid}
                self.bucket_reservoir_counts[bucket] = 1
                image = polymat.projectivise(image)
                self.bucket_images[bucket] = np.zeros(shape=(self.bucket_size, *image.shape), dtype=image.dtype)
                self.bucket_images[bucket][0, :, :, :] = image
                kept += [i]
                continue
            self.bucket_reservoir_counts[bucket] += 1
            if len(self.bucket_braids[bucket]) == self.bucket_size:
                if self.rand is not None:
                    j = self.rand.randint(1, self.bucket_reservoir_counts[bucket])
                    if j <= self.bucket_size:
                        self.bucket_braids[bucket][j - 1] = braid
                        image = polymat.projectivise(image)
                        self.bucket_images[bucket][j - 1] = image
                continue
            if braid in self.bucket_braid_set[bucket]:
                continue
            idx = len(self.bucket_braids[bucket])
            self.bucket_braids[bucket] += [braid]
            self.bucket_braid_set[bucket] |= {braid}
            image = polymat.projectivise(image)
            self.bucket_images[bucket][idx, :, :, :] = image
            kept += [i]

    def bucket_product(self, bucket1, bucket2):
        braids1, images1 = self.bucket_braids_images(bucket1)
        braids2, images2 = self.bucket_braids_images(bucket2)
        braids = [a * b for a in braids1 for b in braids2]
        images = self.rep.mul(images1[:, None, ...], images2[None, :, ...])
        self.add_braids_images(braids, images.reshape((-1, *images.shape[-3:]), order='C'))

    def nf_descendants(self, bucket, length):
        all_pairs = [(i, braid, suffix) for i, braid in enumerate(self.bucket_braids[bucket]) for suffix in braid.nf_suffixes(length)]
        for pairs in batched(all_pairs, 1000):
            left = polymat.pack([self.bucket_images[bucket][i] for i, _, _ in pairs])
            rights = evaluate_prefixes_of_same_length(self.rep, [suffix for _, _, suffix in pairs])
            for i in range(1, length + 1):
                images = self.rep.mul(left, rights[i])
                self.add_braids_images([braid * suffix.substring(0, i) for _, braid, suffix in pairs], images)

    def substrings(self, bucket):
        assert bucket in self.buckets
        braids = self.bucket_braids[bucket]
        length = braids[0].garside_length()
        for i in range(length - 1):
            images = evaluate_prefixes_of_same_length(self.rep, [braid.substring(i, length) for braid in braids])
            for j in range(i + 2, length + 1 if i > 0 else length):
                self.add_braids_images([braid.substring(i, j) for braid in braids], images[j - i])

    def bootstrap_exhaustive(self, upto_length):
        B = BraidGroup(self.rep.n)
        for length in range(1, upto_length + 1):
            for braids in batched(B.all_of_garside_length(length), 10000):
                images = evaluate_braids_of_same_length(self.rep, braids)
                self.add_braids_images(braids, images)


# display
class JonesSummand:

    def __repr__(self):
        ring = 'ℤ' if self.p == 0 else f'F{self.p}'
        return f'Two-rowed representation ({self.n - self.r}, {self.r}) of B{self.n}, over {ring}'
